"""Random well-formed molds (the driver's description of them)."""
TYPES = ['STRING', 'INTEGER', 'FLOAT', 'BOOLEAN', 'ENUM']
NAMES = ['a', 'b', 'c', 'key', 'long_name_1', 'x9', 'zz', 'q0y8']
VERS = [[1, 0], [1, 1], [1, 2], [2, 0], [2, 5], [3, 0], [10, 0], [10, 2]]

def rversion(r, vers=VERS):
    return list(r.choice(vers))
def rvalue(r, t, wide=True):
    if t == 'BOOLEAN': return r.choice(['true', 'false'])
    if t == 'INTEGER':
        return str(r.choice([0, 1, 2, 3, 5, 7, 10, -1, -5, 42, 100] + ([2**31, -2**31, 2**40, 2**53, 2**62, 2**63 - 1, -2**63] if wide else [])))
    if t == 'FLOAT':
        return r.choice(['0', '1', '2.5', '-3.25', '1.5', '100', '0.1'] + (['1e10', '-1e-7', '123456.789', '1e100', '0.30000000000000004'] if wide else []))
    if t == 'ENUM': return r.choice(['red', 'green', 'blue', 'x'])
    return r.choice(['', 'v', 'value', 'other value', 'x' * 40, 'a.b@1', 'ünïcode', 'true', '17', '"q"\n', 'z' * 300] if wide else ['', 'v', 'w', 'value'])
def vsubset(r, n, vers=VERS):
    return r.sample(vers, min(n, len(vers)))
def limits(r, vers):
    q = []
    if r.random() < 0.55:
        for v in vsubset(r, r.choice([1, 1, 1, 2, 3]), vers):
            q.append({'rt': 'MIN', 'n': str(r.choice([0, 0, 1, 2, 3])), 'intro': v})
    if r.random() < 0.65:
        for v in vsubset(r, r.choice([1, 1, 1, 2, 3]), vers):
            q.append({'rt': 'MAX', 'n': str(r.choice([0, 1, 2, 2, 3, 4, 5])), 'intro': v})
    r.shuffle(q)
    return q
def vrestr(r, t, vers):
    q = []
    if t == 'ENUM':
        for s in r.sample(['red', 'green', 'blue'], r.choice([0, 1, 2, 2, 3, 3])):
            q.append({'rt': 'ENUM', 's': s})
    elif t in ('INTEGER', 'FLOAT') and r.random() < 0.6:
        for _ in range(r.choice([1, 1, 2, 3])):
            if r.random() < 0.6:
                a, b = sorted([float(rvalue(r, t, False)), float(rvalue(r, t, False))])
                q.append({'rt': 'RANGE', 'lo': '%.17g' % a, 'hi': '%.17g' % b})
            else:
                q.append({'rt': 'NUMERIC', 'n': '%.17g' % float(rvalue(r, t, False))})
    for x in q:
        if r.random() < 0.35: x['intro'] = rversion(r, vers)
        if r.random() < 0.25:
            later = [v for v in vers if v > x.get('intro', [1, 0])]
            if later: x['depr'] = list(r.choice(later))
    return q
def keyval(r, name, vers=VERS, restr=True, lim=True, plain=0.0):
    t = r.choice(TYPES)
    defs = [{'v': rvalue(r, t, r.random() < 0.4), 'intro': v} for v in vsubset(r, r.choice([1, 1, 2, 3, 4]), vers)]
    if r.random() < 0.5 and all(d['intro'] != [1, 0] for d in defs): defs[0]['intro'] = [1, 0]
    rest = (vrestr(r, t, vers) if restr else [{'rt': 'ENUM', 's': s} for s in ['red', 'green', 'blue', 'x']] if t == 'ENUM' else [])
    rest += limits(r, vers) if lim and r.random() > plain else []
    r.shuffle(rest)
    e = {'k': 'KEYVAL', 'name': name, 't': t, 'defs': defs, 'rest': rest, 'els': []}
    if r.random() < 0.15: e['depr'] = rversion(r, vers)
    return e
def section(r, name, depth, vers=VERS, **kw):
    e = {'k': 'SECTION', 'name': name, 't': 'UNKNOWN', 'defs': [], 'rest': limits(r, vers) if kw.get('lim', True) else [],
         'els': elements(r, depth - 1, vers, **kw)}
    if r.random() < 0.3: e['intro'] = rversion(r, vers)
    if r.random() < 0.15: e['depr'] = rversion(r, vers)
    return e
def elements(r, depth, vers=VERS, n=None, **kw):
    q = []
    for name in r.sample(NAMES, n or r.choice([1, 2, 2, 3, 3, 4])):
        if depth > 0 and r.random() < 0.45: q.append(section(r, name, depth, vers, **kw))
        else: q.append(keyval(r, name, vers, **{k: v for k, v in kw.items() if k in ('restr', 'lim', 'plain')}))
    return q
def mold(r, depth=2, vers=VERS, **kw):
    while True:
        m = {'els': elements(r, depth, vers, **kw)}
        if size(m) <= 60: return m
def size(m):
    """Upper estimate of what generating this mold creates."""
    def s(e):
        mn = max([1] + [int(x['n']) for x in e['rest'] if x['rt'] == 'MIN'])
        return mn * (1 + sum(s(x) for x in e['els']))
    return sum(s(e) for e in m['els'])
def version(m):
    best = [[1, 0]]
    def walk(e):
        for k in ('intro', 'depr'):
            if e.get(k): best.append(e[k])
        for d in e.get('defs', []): best.append(d.get('intro') or [1, 0])
        for x in e.get('rest', []): walk(x)
        for x in e.get('docs', []): best.append(x.get('intro') or [1, 0])
        for x in e.get('els', []): walk(x)
    for e in m['els']: walk(e)
    for x in m.get('docs', []): best.append(x.get('intro') or [1, 0])
    return max(best)

WORDS = ['about', 'the value', 'what it does\nin two lines', '', 'x' * 80, 'beskrivelse: ø']
def docs(r, e, vers=VERS, n=1, p=0.4):
    """Give mold elements some documentation (one entry each: the library takes no second one later)."""
    if r.random() < p: e['docs'] = [{'v': r.choice(WORDS), 'intro': rversion(r, vers)} for _ in range(n)]
    for x in e.get('els', []): docs(r, x, vers, n, p)
    for x in e.get('rest', []):
        if r.random() < p / 2: x['docs'] = [{'v': r.choice(WORDS), 'intro': rversion(r, vers)}]
    return e
def all_elements(m):
    q = []
    def walk(e):
        q.append(e)
        for x in e['els']: walk(x)
    for e in m['els']: walk(e)
    return q
def mutate(r, m):
    """One small change to a mold."""
    import copy
    m = copy.deepcopy(m)
    if not all_elements(m): return mold(r, depth=1)
    e = r.choice(all_elements(m))
    x = r.random()
    if x < 0.25 and e['defs']: r.choice(e['defs'])['v'] = rvalue(r, e['t'], r.random() < 0.5)
    elif x < 0.35 and e['defs']:
        v = [q for q in VERS if all(d['intro'] != q for d in e['defs'])]
        if v: r.choice(e['defs'])['intro'] = list(r.choice(v))
    elif x < 0.45 and e['defs']:
        v = [q for q in VERS if all(d['intro'] != q for d in e['defs'])]
        if len(e['defs']) > 1 and r.random() < 0.5: e['defs'].pop(r.randrange(len(e['defs'])))
        elif v: e['defs'].append({'v': rvalue(r, e['t']), 'intro': list(r.choice(v))})
    elif x < 0.7 and e['rest']:
        q = r.choice(e['rest'])
        y = r.random()
        if y < 0.25: e['rest'].remove(q)
        elif y < 0.45 and q['rt'] not in ('MIN', 'MAX'): q['depr'] = rversion(r)
        elif q['rt'] in ('MIN', 'MAX'): q['n'] = str(int(q['n']) + 1)
        elif q['rt'] == 'NUMERIC': q['n'] = '%.17g' % (float(q['n']) + 1)
        elif q['rt'] == 'RANGE':
            if r.random() < 0.5: q['hi'] = '%.17g' % (float(q['hi']) + 1)
            else: q['lo'] = '%.17g' % (float(q['lo']) - 1)
        elif q['rt'] == 'ENUM': q['s'] = 'crimson'
    elif x < 0.8:
        tgt = r.choice([m, e] + e['rest'])
        tgt['docs'] = [{'v': 'another', 'intro': [1, 0]}]
    elif x < 0.9:
        c = r.choice([m] + [q for q in all_elements(m) if q['k'] == 'SECTION'])
        have = {q['name'] for q in c['els']}
        free = [n for n in NAMES if n not in have]
        if free: c['els'].append(keyval(r, r.choice(free)))
    else:
        c = r.choice([m] + [q for q in all_elements(m) if q['k'] == 'SECTION' and len(q['els']) > 1])
        if len(c['els']) > 1: c['els'].pop(r.randrange(len(c['els'])))
    return m
