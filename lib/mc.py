"""Bounded model checking of the machines (spec/*MC.tla) and replay of what it visits.

A world is a prelude, a finite alphabet of public calls and a depth. TLC visits every state the
alphabet leads to within the depth, checks the claims of the machine on every transition and prints
the calls that lead to it; those are then made on the real library and judged like any other history."""
import json, os, random, re, tempfile
import core, enc
from worlds import WORLDS

MAPS = {'ConfigMC': dict(x='X C', y='X C molds', c='C', m='molds', k='K', u='U'),
        'MoldMC': dict(x='X B mm C molds', y='X B mm C molds', c='C', m='molds mm', k='K', u='U'),
        'DocMC': dict(x='X B mm C', y='X C molds', c='C', m='molds mm', k='K', d='D'),
        'StoreMC': dict(x='X B mm C', y='X C molds', c='C', m='molds mm', k='K', d='D', i='I'),
        'ArchiveMC': dict(x='X B mm C', y='X C molds', c='C', m='molds mm', k='K', d='D', i='I', a='A', p='P'),
        'ErrorMC': dict(i='I'), 'VersionMC': {}}
# ops that make the handle in this field
MAKES = {'gen': 'c', 'cfin': 'c', 'cread': 'c', 'unser': 'c', 'knew': 'k', 'kelems': 'k', 'upd': 'u', 'mold': 'm', 'mfin': 'm',
         'mread': 'm', 'munser': 'm', 'ser': 'd', 'mser': 'd', 'docput': 'd', 'inst': 'i', 'abegin': 'a', 'aimport': 'p', 'iblank': 'i'}

def entry(module, raw, c):
    maps = MAPS[module]; needs, fresh = [], []
    for f, q in maps.items():
        if f not in raw or raw[f] is None or (f == 'k' and raw['op'] == 'begin'): continue
        h = raw[f]
        if f == 'c' and raw['op'] in ('dump', 'valid'): q = maps['x']
        if MAKES.get(raw['op']) == f: fresh.append([q.split(), h])
        elif f == 'm' and raw['op'] in ('mread',): fresh.append([q.split(), h])
        elif f in ('a', 'b', 'd', 'p', 'i') and not isinstance(h, str): continue
        else: needs.append([q.split(), h])
    if 'as' in raw: fresh.append([(maps['c'] if raw['op'] == 'updfin' else maps['x']).split(), raw['as']])
    return dict(c=c, needs=needs, fresh=fresh)

def closers(w):
    """The calls that give everything back, in their order; those that do not apply are left out."""
    X, K, Cs, U, P = [], [], [], [], []
    for c in w['prelude'] + w['alphabet']:
        op = c['op']
        if 'as' in c: (Cs if op == 'updfin' else X).append(c['as'])
        f = MAKES.get(op)
        if f == 'c': Cs.append(c['c'])
        if f == 'k': K.append(c['k'])
        if f == 'u': U.append(c['u'])
    u = lambda q: sorted(set(q), reverse=True)
    return ([dict(op='updfin', u=h) for h in u(U)] + [dict(op='kfree', k=h) for h in u(K)]
            + [dict(op=o, x=h) for o in ('destroy', 'put') for h in u(X)] + [dict(op='cfree', c=h) for h in u(Cs)])
def view(name):
    """What is asked at the end of a history, and what is given back then."""
    w = WORLDS[name]
    return w['observe'], closers(w)

def encode(suite, calls):
    """Commands as the specification sees them, all in one renaming."""
    from suites import SUITES
    def answer(c):
        if '_as' in c: return dict(st=c['_as'][0], kept=c['_as'][1], hit=True)      # what is taken to be seen of a disturbed call
        return {'st': 'OK', 'got': True} if c['op'] in ('abegin', 'aimport') else {'st': 'OK'}
    fake = [(dict(c, **({'_look': []} if c['op'] == 'afin' else {})), answer(c)) for c in calls]
    lines, _ = SUITES[suite]['encode'](fake)
    return [l['c'] for l in lines]

T = re.compile(r'^"T \[\[([\d, ]*)\],\[([\d, ]*)\]\]"$', re.M)
def explore(a):
    """-> dict(world, seqs=[(indices, observers)], states, transitions, depth) or {'error'|'claim'}"""
    name, depth, d = a[:3]; limit = a[3] if len(a) > 3 else 780
    w = WORLDS[name]
    look, close = view(name)
    raw = w['prelude'] + w['alphabet'] + look + close
    cs = encode(w['suite'], raw)
    es = [entry(w['module'], r, c) for r, c in zip(raw, cs)]
    n, m = len(w['prelude']), len(w['alphabet'])
    fd, path = tempfile.mkstemp(prefix='world.', suffix='.ndjson', dir=d)
    with os.fdopen(fd, 'w') as f:
        f.write(json.dumps(dict(prelude=es[:n], alphabet=es[n:n + m], observe=es[n + m:], depth=depth, fold=bool(w.get('fold')))) + '\n')
    rc, out = core.tlc(w['module'], w['module'] + '.cfg', env={'WORLD': path}, metadir=d, timeout=limit, heap='3000m')
    os.unlink(path)
    seqs = {}
    for h, o in T.findall(out):
        seqs[tuple(int(x) for x in h.split(','))] = [int(x) for x in o.split(',')] if o else []
    g = core.STAT.search(out)
    r = dict(world=name, depth=depth, transitions=len(seqs), states=int(g.group(2)) if g else 0)
    if 'Model checking completed. No error has been found' not in out:
        i = out.find('Error:'); r['error'] = 'world %s: %s' % (name, out[max(0, i):i + 3000])
        return r
    longer = {s[:k] for s in seqs for k in range(1, len(s))}
    if w.get('stateless'):          # calls that change nothing are made one after the other
        q = sorted(s[0] for s in seqs)
        r['seqs'] = [(tuple(q[i:i + 150]), []) for i in range(0, len(q), 150)]
        return r
    r['seqs'] = [(s, o) for s, o in sorted(seqs.items()) if s not in longer]
    return r

def calls(name, seq, obs):
    w = WORLDS[name]
    look, close = view(name)
    last = [(look + close)[k - 1] for k in obs]
    put = {c['x'] for c in last if c['op'] == 'put'}
    last = [c for c in last if not (c['op'] == 'destroy' and c['x'] in put)]
    return ([dict(op='reset')] + w['prelude'] + [w['alphabet'][k - 1] for k in seq] + last + [dict(op='end')])

def replay(drv, name, seq, obs):
    log = []
    for c in calls(name, seq, obs):
        a = drv.safe(c); log.append((c, a))
        if str(a.get('st', '')).startswith('CRASH '): break
    return log

def shard(a):
    """Replay one part of the sequences of several worlds and judge them."""
    import engine
    run, parts, no = a
    try:
        wd = os.path.join(run['dir'], 'mc%d' % no); os.makedirs(wd, exist_ok=True)
        drv = engine.mkdriver(run['exe'], wd)
        res = dict(seqs=0, calls=0, states=0, rej=[], rej_more=0, ops={})
        try:
            for name, seqs in parts:
                suite = WORLDS[name]['suite']; seen = {}; i = 0
                while i < len(seqs):
                    logs = []; size = 0
                    crashes = 0
                    while i < len(seqs) and size < 40000 and crashes < 6:
                        log = replay(drv, name, *seqs[i]); logs.append(log); size += len(log); i += 1; crashes += engine.crashed(log)
                        for c, o in log:
                            k = c['op'] + ' ' + str(o.get('st')); res['ops'][k] = res['ops'].get(k, 0) + 1
                    rej, st = engine.judge(suite, logs, wd)
                    res['seqs'] += len(logs); res['calls'] += size; res['states'] += st
                    for k, j, m in rej:
                        key = logs[k][min(j, len(logs[k]) - 1)][0]['op']
                        seen[key] = seen.get(key, 0) + 1
                        if seen[key] <= 3: res['rej'].append((suite, 'world ' + name, logs[k], j, m))
                        else: res['rej_more'] += 1
                    if sum(seen.values()) > 30: break
        finally:
            drv.close()
        return res
    except core.HarnessError as e:
        return {'error': str(e)}
    except Exception:
        import traceback
        return {'error': traceback.format_exc()}

def run_worlds(run, jobs):
    """jobs: [(world, depth, how many of the longest histories are replayed)] -> rejections like those of the shards"""
    ex = core.parallel(explore, [(w, d, run.dir, 780 if run.tier == 'quick' else 6000) for w, d, _ in jobs])
    parts = [[] for _ in range(core.NPROC)]
    for (w, d, cap), r in zip(jobs, ex):
        if 'error' in r: raise core.HarnessError(r['error'])
        q = r['seqs']; n = len(q)
        if n > cap:
            q = sorted(random.Random('%s/%s' % (run.seed, w)).sample(q, cap))
        run.add('mc_states', r['states']); run.add('mc_transitions', r['transitions'])
        run.add('mc_histories', n); run.add('replayed', len(q))
        run.worlds.append('%s depth %d: %d states, %d transitions, %d of %d histories replayed' % (w, d, r['states'], r['transitions'], len(q), n))
        for k in range(core.NPROC): parts[k].append((w, q[k::core.NPROC]))
    res = core.parallel(shard, [(dict(dir=run.dir, exe=run.exe), parts[k], k) for k in range(core.NPROC)])
    for r in res:
        if 'error' in r: raise core.HarnessError(r['error'])
        run.add('replayed_calls', r['calls']); run.add('trace_states', r['states'])
        for k, n in r['ops'].items(): run.ops[k] = run.ops.get(k, 0) + n
    return [x for r in res for x in r['rej']], sum(r['rej_more'] for r in res)
