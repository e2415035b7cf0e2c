"""Trace validation: seeded histories run against libdisir, every answer judged by TLC."""
import bisect, json, os, random, sys, time, traceback
import core
from drv import Driver
from suites import SUITES

def record(suite, profile, seed, i, steps, drv):
    r = random.Random('%s/%s/%s/%d' % (suite, profile, seed, i))
    return SUITES[suite]['scenario'](r, drv, profile, steps)

def crashed(log):
    return bool(log) and str(log[-1][1].get('st', '')).startswith('CRASH ')

def judge(suite, logs, workdir):
    """-> ([(index of log, index of call, expected)], states). A log the specification cannot even be
    evaluated on (an answer of a shape no correct answer has) is rejected at the call it fails on."""
    S = SUITES[suite]
    lines, starts, where, out = [], [], [], []
    for k, log in enumerate(logs):
        try:
            L, _ = S['encode'](log)
        except Exception as e:
            out.append((k, len(log) - 1, {'st': 'answer cannot be read: %r' % (e,)}))
            continue
        starts.append(len(lines)); where.append(k); lines += L
    states = 0
    for attempt in range(40):
        if not lines: break
        rej, n, err = core.validate(S['module'], lines, workdir)
        states += n
        for i, m in rej:
            j = bisect.bisect(starts, i) - 1
            out.append((where[j], i - starts[j], m))
        if err is None: break
        if err.get('line') is None: raise core.HarnessError(err['text'])
        i = err['line']; j = bisect.bisect(starts, i) - 1
        if where[j] not in {k for k, _, _ in out}:
            out.append((where[j], i - starts[j], {'st': 'answer outside the specification: ' + err['text'][:300]}))
        # go on behind the scenario that could not be evaluated
        nxt = starts[j + 1] if j + 1 < len(starts) else len(lines)
        lines = lines[nxt:]; where = where[j + 1:]; starts = [s - nxt for s in starts[j + 1:]]
    return out, states

def shard(a):
    run, jobs, seed, no = a
    try:
        wd = os.path.join(run['dir'], 'shard%d' % no); os.makedirs(wd, exist_ok=True)
        drv = mkdriver(run['exe'], wd)
        res = {'traces': 0, 'calls': 0, 'states': 0, 'rej': [], 'samples': [], 'ops': {}}
        try:
            for suite, profile, n, steps in jobs:
                seen = {}; i = 0
                while i < n:
                    logs = []; size = 0
                    crashes = 0
                    while i < n and size < 60000 and crashes < 6:
                        log = record(suite, profile, '%s.%d' % (seed, no), i, steps, drv)
                        logs.append(log); size += len(log); i += 1; crashes += crashed(log)
                        for c, o in log:
                            k = c['op'] + ' ' + str(o.get('st'))
                            res['ops'][k] = res['ops'].get(k, 0) + 1
                    rej, st = judge(suite, logs, wd)
                    res['traces'] += len(logs); res['calls'] += size; res['states'] += st
                    if len(res['samples']) < 2 and logs:
                        res['samples'].append('%s/%s: %s' % (suite, profile, '; '.join(brief(c, o) for c, o in logs[0][1:9])))
                    for k, j, m in rej:
                        key = logs[k][min(j, len(logs[k]) - 1)][0]['op']
                        seen[key] = seen.get(key, 0) + 1
                        if seen[key] <= 3: res['rej'].append((suite, profile, logs[k], j, m))
                        else: res['rej_more'] = res.get('rej_more', 0) + 1
                    if sum(seen.values()) > 50: break
        finally:
            drv.close()
        return res
    except core.HarnessError as e:
        return {'error': str(e)}
    except Exception:
        return {'error': traceback.format_exc()}

def mkdriver(exe, wd):
    sc = os.path.join(wd, 'scratch'); os.makedirs(sc, exist_ok=True)
    return Driver(exe, sc)

def brief(c, o):
    a = {k: v for k, v in c.items() if k not in ('op', 'mold')}
    return '%s%s -> %s' % (c['op'], json.dumps(a, ensure_ascii=True)[:90] if a else '', o.get('st'))

def confirm(run, suite, log, i):
    """Run the same calls again on a fresh process; is the outcome still refused?"""
    wd = os.path.join(run.dir, 'confirm'); os.makedirs(wd, exist_ok=True)
    drv = mkdriver(run.exe, wd)
    try:
        out = []
        for c, _ in log:
            a = drv.safe(c); out.append((c, a))
            if str(a.get('st', '')).startswith('CRASH '): break
    finally:
        drv.close()
    rej, _ = judge(suite, [out], wd)
    return (out, rej[0][1], rej[0][2]) if rej else None

def shrink(run, suite, log, i):
    """Drop calls that are not needed for the refusal (bounded effort)."""
    best = log[:i + 1]
    t0 = time.time(); n = 2
    if len(best) < 4: return best
    cand = best[:]
    while n <= 16 and time.time() - t0 < 25:
        size = max(1, (len(cand) - 2) // n); cut = False
        for a in range(1, len(cand) - 1, size):
            if time.time() - t0 > 25: break
            trial = cand[:a] + cand[a + size:] if a + size < len(cand) else cand[:a] + cand[-1:]
            if len(trial) == len(cand): continue
            try: z = confirm(run, suite, trial, 0)
            except Exception: z = None
            if z and z[0][z[1]][0] == best[-1][0] and 'HARNESS' not in str(z[0][z[1]][1].get('st')):
                cand = z[0][:z[1] + 1]; cut = True
                break
        if not cut: n *= 2
    return cand

def run_traces(run, jobs, worlds=()):
    """jobs: [(suite, profile, n per shard, steps)]; worlds: [(world, depth, cap)] of bounded exploration"""
    import mc
    shards = [(dict(dir=run.dir, exe=run.exe), jobs, run.seed, k) for k in range(core.NPROC)]
    res = core.parallel(shard, shards)
    ops = {}
    for r in res:
        if 'error' in r: raise core.HarnessError(r['error'])
        run.add('traces', r['traces']); run.add('calls', r['calls']); run.add('trace_states', r['states'])
        for k, n in r['ops'].items(): ops[k] = ops.get(k, 0) + n
    run.samples += [s for r in res[:2] for s in r['samples']]
    run.ops = ops
    todo = [x for r in res for x in r['rej']]
    more = sum(r.get('rej_more', 0) for r in res)
    if worlds:
        t, n = mc.run_worlds(run, worlds)
        todo = t + todo; more += n
    run.add('rejections', len(todo) + more)
    kinds = set()
    for suite, profile, log, i, m in todo:
        i = min(i, len(log) - 1)
        key = (suite, log[i][0]['op'], str(log[i][1].get('st')), str(m.get('st')))
        if key in kinds: continue
        kinds.add(key)
        if len(run.violations) >= 5: break
        z = confirm(run, suite, log, i)
        if z is None:
            run.add('unconfirmed', 1); continue
        out, j, m = z
        j = min(j, len(out) - 1)
        if not run.violations:
            try: out = shrink(run, suite, out, j)
            except Exception: out = out[:j + 1]
            z2 = confirm(run, suite, out, 0)
            if z2: out, j, m = z2[0], min(z2[1], len(z2[0]) - 1), z2[2]
        run.violation(suite, profile, out[:j + 1], m)
