"""The worlds the machines are explored in: small enough to visit every history of the alphabet."""
def C(op, **kw): return dict(op=op, **kw)
def K(name, t, *defs, rest=(), depr=None):
    e = dict(k='KEYVAL', name=name, t=t, defs=[dict(v=v, intro=list(i)) for v, i in defs], rest=list(rest))
    if depr: e['depr'] = list(depr)
    return e
def SEC(name, els, rest=(), intro=None, depr=None):
    e = dict(k='SECTION', name=name, els=els, rest=list(rest))
    if intro: e['intro'] = list(intro)
    if depr: e['depr'] = list(depr)
    return e
def lim(mn, mx, intro=(1, 0)):
    q = []
    if mn is not None: q.append(dict(rt='MIN', n=str(mn), intro=list(intro)))
    if mx is not None: q.append(dict(rt='MAX', n=str(mx), intro=list(intro)))
    return q
def rng(lo, hi, intro=(1, 0), depr=None): return dict(rt='RANGE', lo=str(lo), hi=str(hi), intro=list(intro), depr=list(depr) if depr else None)
def enum(s, intro=(1, 0), depr=None): return dict(rt='ENUM', s=s, intro=list(intro), depr=list(depr) if depr else None)

V1, V2, V3 = (1, 0), (1, 1), (2, 0)
WORLDS = {}
def world(name, suite, module, prelude, alphabet, observe, depth):
    WORLDS[name] = dict(suite=suite, module=module, prelude=prelude, alphabet=alphabet, observe=observe, depth=depth)

# ---------------------------------------------------------------- configs
TREE = dict(els=[K('a', 'INTEGER', ('1', V1), rest=lim(0, 2) + [rng(0, 5)]),
                 SEC('s', [K('k', 'STRING', ('w', V1), rest=lim(1, 1))], rest=lim(0, 1))])
SEE = [C('dump', c='c1', flags=True), C('valid', c='c1'), C('dump', c='x1', flags=True), C('dump', c='x2', flags=True), C('ctxvalid', x='x1'), C('ctxvalid', x='x2')]
world('tree', 'config', 'ConfigMC', [C('mold', m='m1', mold=TREE), C('gen', m='m1', ver=[1, 0], c='c1')],
      [C('begin', x='c1', k='KEYVAL', **{'as': 'x1'}), C('begin', x='x2', k='KEYVAL', **{'as': 'x1'}), C('begin', x='c1', k='SECTION', **{'as': 'x2'}),
       C('setname', x='x1', name='a'), C('setname', x='x1', name='k'), C('setname', x='x2', name='s'), C('setv', x='x1', t='INTEGER', v='3'),
       C('setv', x='x1', t='INTEGER', v='9'), C('setv', x='x1', t='STRING', v='text'), C('fin', x='x1'), C('fin', x='x2'), C('finkeep', x='x1'), C('finkeep', x='x2'),
       C('put', x='x1'), C('put', x='x2'), C('destroy', x='x1'), C('destroy', x='x2'),
       C('destroy', x='c1', at=[['a', 0]]), C('destroy', x='c1', at=[['s', 0]]), C('hold', x='c1', at=[['a', 0]], **{'as': 'x1'}), C('hold', x='c1', at=[['s', 0]], **{'as': 'x2'})],
      SEE, 5)
world('query', 'config', 'ConfigMC', [C('mold', m='m1', mold=dict(els=[K('a', 'INTEGER', ('1', V1), rest=lim(0, 3) + [rng(0, 5)]),
        SEC('s', [K('k', 'STRING', ('w', V1), rest=lim(0, 2)), SEC('t', [K('z', 'INTEGER', ('0', V1))], rest=lim(0, 2))], rest=lim(0, 2))])), C('gen', m='m1', ver=[1, 0], c='c1')],
      [C('cset', x='c1', q=q, t=t, v=v) for q, t, v in [('a', 'INTEGER', '2'), ('a@1', 'INTEGER', '3'), ('a@2', 'INTEGER', '9'), ('s.k', 'STRING', 'u'), ('s.k@1', 'STRING', 'x'),
        ('s@1.k@1', 'STRING', 'x'), ('s@1.k', 'STRING', 'y'), ('s@1.t.z', 'INTEGER', '7'), ('s.t@1.z', 'INTEGER', '7'), ('s.t', 'INTEGER', '7'), ('nosuch', 'INTEGER', '1'), ('s@2.k', 'STRING', 'v')]]
      + [C('destroy', x='c1', at=[['s', 0]]), C('destroy', x='c1', at=[['a', 0]]), C('destroy', x='c1', at=[['s', 0], ['k', 0]]), C('query', x='c1', q='s@1.k', **{'as': 'x1'}), C('setv', x='x1', t='STRING', v='b'), C('put', x='x1')],
      [C('dump', c='c1', flags=True), C('valid', c='c1'), C('query', x='c1', q='s@1.k@0'), C('query', x='c1', q='s.t@1.z')], 4)
TWO = dict(els=[K('a', 'INTEGER', ('1', V1), ('2', V2), rest=lim(1, 2)), K('e', 'ENUM', ('on', V1), ('off', V3), rest=[enum('on'), enum('off', V2), enum('hold', V1, V3)])])
world('refs', 'config', 'ConfigMC', [C('mold', m='m1', mold=TREE), C('gen', m='m1', ver=[1, 0], c='c1')],
      [C('knew', k='k1'), C('kelems', x='c1', k='k1'), C('kpush', k='k1', x='x1'), C('knext', k='k1'), C('knext', k='k1', **{'as': 'x1'}), C('kreset', k='k1'), C('kfree', k='k1'),
       C('hold', x='c1', at=[['a', 0]], **{'as': 'x1'}), C('put', x='x1'), C('destroy', x='x1'), C('destroy', x='c1', at=[['a', 0]]), C('cset', x='c1', q='a', t='INTEGER', v='4'),
       C('cset', x='c1', q='s.k', t='STRING', v='p'), C('destroy', x='c1', at=[['s', 0]]), C('cfree', c='c1'), C('getv', x='x1', t='INTEGER')],
      [C('ksize', k='k1'), C('dump', c='c1', flags=True), C('knext', k='k1'), C('knext', k='k1'), C('ctxtype', x='x1'), C('ctxvalid', x='x1')], 5)
world('compare', 'config', 'ConfigMC', [C('mold', m='m1', mold=TREE), C('gen', m='m1', ver=[1, 0], c='c1'), C('gen', m='m1', ver=[1, 0], c='c2')],
      [C('cset', x=c, q=q, t=t, v=v) for c in ('c1', 'c2') for q, t, v in [('a', 'INTEGER', '2'), ('a@1', 'INTEGER', '2'), ('s.k', 'STRING', 'u'), ('s.k', 'STRING', 'w')]]
      + [C('destroy', x=c, at=[['a', 0]]) for c in ('c1', 'c2')] + [C('destroy', x='c2', at=[['s', 0]])],
      [C('compare', x='c1', y='c2'), C('compare', x='c2', y='c1'), C('compare', x='c1', y='c1')], 4)
UPD = dict(els=[K('a', 'INTEGER', ('1', V1), ('2', V2), ('3', V3), rest=lim(1, 2)), K('b', 'STRING', ('x', V1), ('y', V3), rest=lim(0, 2)),
                K('n', 'INTEGER', ('5', V3)), K('g', 'INTEGER', ('8', V1), depr=V3)])
world('update', 'config', 'ConfigMC', [C('mold', m='m1', mold=UPD), C('gen', m='m1', ver=[1, 0], c='c1')],
      [C('cset', x='c1', q=q, t=t, v=v) for q, t, v in [('a', 'INTEGER', '7'), ('a', 'INTEGER', '2'), ('a@1', 'INTEGER', '9'), ('b', 'STRING', 'z'), ('b', 'STRING', 'y'), ('g', 'INTEGER', '4')]]
      + [C('upd', c='c1', u='u1', ver=[1, 1]), C('upd', c='c1', u='u1', ver=[2, 0]), C('upd', c='c1', u='u1', ver=[3, 0]), C('updres', u='u1', v='7'), C('updres', u='u1', v='3'), C('updres', u='u1', v='z'),
         C('updcont', u='u1'), C('updfin', u='u1', **{'as': 'c2'}), C('updfin', u='u1')],
      [C('updconf', u='u1'), C('dump', c='c1', flags=True), C('dump', c='c2', flags=True), C('valid', c='c2')], 6)
world('gen', 'config', 'ConfigMC', [C('mold', m='m1', mold=dict(els=TWO['els'] + [SEC('s', [K('k', 'INTEGER', ('4', V2), ('6', V3), rest=lim(2, 3))], intro=V2, rest=lim(1, 2)), K('g', 'FLOAT', ('1.5', V1), depr=V2)]))],
      [C('gen', m='m1', ver=v, c=c) for v in ([1, 0], [1, 1], [1, 2], [2, 0], [9, 0]) for c in ('c1', 'c2')] + [C('gen', m='m1', c='c1'), C('cbegin', m='m1', **{'as': 'x1'}), C('setver', x='x1', ver=[1, 1]),
       C('setver', x='x1', ver=[2, 0]), C('setver', x='x1', ver=[9, 0]), C('genroot', x='x1'), C('cfin', x='x1', c='c3'), C('cfree', c='c1'), C('cset', x='c1', q='e', t='ENUM', v='off'), C('cset', x='c1', q='e', t='ENUM', v='hold'), C('cset', x='c3', q='a', t='INTEGER', v='5')],
      [C('dump', c='c1', flags=True), C('dump', c='c2', flags=True), C('dump', c='c3', flags=True), C('valid', c='c1'), C('valid', c='c3'), C('compare', x='c1', y='c2')], 4)

# ---------------------------------------------------------------- molds
AS = lambda x: {'as': x}
world('mold', 'mold', 'MoldMC', [C('mbegin', **AS('x1'))],
      [C('addkv', x='x1', name='a', t='INTEGER', v='1', doc='d', intro=[1, 0], **AS('x2')), C('begin', x='x1', k='KEYVAL', **AS('x2')), C('setname', x='x2', name='a'), C('setname', x='x2', name='b.c'),
       C('settype', x='x2', t='INTEGER'), C('adddef', x='x2', t='INTEGER', v='1', intro=[1, 0]), C('adddef', x='x2', t='INTEGER', v='2', intro=[1, 1]), C('adddef', x='x2', t='STRING', v='w', intro=[2, 0]),
       C('rvadd', x='x2', rt='RANGE', lo='0', hi='5', intro=[1, 0], **AS('x4')), C('addmax', x='x2', n=2, intro=[1, 1]), C('fin', x='x2'), C('finkeep', x='x2'), C('put', x='x2'), C('destroy', x='x2'),
       C('mfin', x='x1', m='m1')],
      [C('mdump', m='m1', vers=[None, [1, 0], [1, 1], [2, 0]]), C('mvalid', m='m1'), C('xdump', x='x2', vers=[None, [1, 0]]), C('gen', m='m1', ver=[1, 0], c='c1'), C('dump', c='c1', flags=True)], 6)
world('msection', 'mold', 'MoldMC', [C('mbegin', **AS('x1'))],
      [C('begin', x='x1', k='SECTION', **AS('x2')), C('setname', x='x2', name='s'), C('begin', x='x2', k='KEYVAL', **AS('x3')), C('setname', x='x3', name='k'), C('settype', x='x3', t='STRING'),
       C('begin', x='x3', k='DEFAULT', **AS('x4')), C('setv', x='x4', t='STRING', v='w'), C('intro', x='x4', ver=[2, 0]), C('fin', x='x4'), C('fin', x='x3'), C('fin', x='x2'), C('finkeep', x='x3'), C('finkeep', x='x2'),
       C('addkv', x='x2', name='k', t='STRING', v='w', intro=[1, 0]), C('intro', x='x2', ver=[1, 1]), C('depr', x='x2', ver=[2, 0]), C('destroy', x='x2'), C('destroy', x='x4'), C('mfin', x='x1', m='m1')],
      [C('mdump', m='m1', vers=[None, [1, 0], [1, 1], [2, 0]]), C('mvalid', m='m1'), C('xdump', x='x2', vers=[None]), C('xdump', x='x3', vers=[None]), C('ctxvalid', x='x4'), C('gen', m='m1', ver=[2, 0], c='c1'), C('dump', c='c1', flags=True)], 6)
world('docs', 'mold', 'MoldMC', [C('mbegin', **AS('x1')), C('addkv', x='x1', name='a', t='INTEGER', v='1', doc='kv', intro=[1, 0], **AS('x2'))],
      [C('adddoc', x='x1', v='all'), C('adddocv', x='x1', v='one', intro=[1, 1]), C('adddocv', x='x1', v='two', intro=[1, 1]), C('adddocv', x='x2', v='late', intro=[2, 0]), C('begin', x='x1', k='DOCUMENTATION', **AS('x3')),
       C('begin', x='x2', k='DOCUMENTATION', **AS('x3')), C('begin', x='x1', k='DOCUMENTATION', **AS('x4')), C('setv', x='x3', t='STRING', v='three'), C('setv', x='x4', t='STRING', v='four'), C('intro', x='x3', ver=[1, 1]), C('intro', x='x3', ver=[2, 0]), C('intro', x='x4', ver=[1, 1]), C('fin', x='x3'), C('fin', x='x4'),
       C('destroy', x='x3'), C('destroy', x='x4'), C('put', x='x3'), C('fin', x='x2'), C('mfin', x='x1', m='m1')],
      [C('getdoc', x='x1', ver=v) for v in (None, [1, 0], [1, 1], [9, 0])] + [C('getdoc', x='x2'), C('mdump', m='m1', vers=[None, [1, 0], [2, 0]])], 5)
world('restr', 'mold', 'MoldMC', [C('mbegin', **AS('x1')), C('begin', x='x1', k='KEYVAL', **AS('x2')), C('setname', x='x2', name='a'), C('settype', x='x2', t='INTEGER'), C('adddef', x='x2', t='INTEGER', v='1', intro=[1, 0])],
      [C('begin', x='x2', k='RESTRICTION', **AS('x3')), C('rtype', x='x3', rt='RANGE'), C('rtype', x='x3', rt='MAX'), C('rtype', x='x3', rt='ENUM'), C('rrange', x='x3', lo='0', hi='5'), C('rrange', x='x3', lo='5', hi='0'), C('rnum', x='x3', n='2'), C('intro', x='x3', ver=[1, 1]), C('depr', x='x3', ver=[2, 0]),
       C('fin', x='x3'), C('destroy', x='x3'), C('addmax', x='x2', n=1, intro=[1, 0]), C('addmin', x='x2', n=1, intro=[1, 1]), C('rvadd', x='x2', rt='NUMERIC', n='4', intro=[1, 1]), C('fin', x='x2'), C('mfin', x='x1', m='m1'),
       C('gen', m='m1', c='c1'), C('cset', x='c1', q='a', t='INTEGER', v='4'), C('cset', x='c1', q='a@1', t='INTEGER', v='2')],
      [C('mdump', m='m1', vers=[None, [1, 0], [1, 1], [2, 0]]), C('mvalid', m='m1'), C('rget', x='x3'), C('rcoll', x='x2'), C('dump', c='c1', flags=True), C('valid', c='c1')], 6)
# ---------------------------------------------------------------- documents
DOCM = dict(els=[K('n', 'INTEGER', ('1', V1), ('2', V2), rest=lim(0, 2)), K('f', 'FLOAT', ('1.5', V1)), K('e', 'ENUM', ('on', V1), rest=[enum('on'), enum('off')]),
                 SEC('s', [K('k', 'STRING', ('w', V1), rest=lim(0, 2)), K('z', 'BOOLEAN', ('true', V2))], rest=lim(0, 2))])
DOCN = dict(els=[K('n', 'INTEGER', ('1', V1), rest=lim(0, 1) + [rng(0, 5)]), K('f', 'INTEGER', ('1', V1)), K('e', 'ENUM', ('on', V1), rest=[enum('on')]), SEC('s', [K('k', 'STRING', ('w', V1))], rest=lim(1, 1))])
def docworld(name, fmt, depth):
    world(name, 'doc', 'DocMC', [C('iblank', i='i1'), C('mold', m='m1', mold=DOCM), C('mold', m='m2', mold=DOCN), C('gen', m='m1', ver=[1, 0], c='c1')],
          [C('cset', x='c1', q=q, t=t, v=v) for q, t, v in [('n', 'INTEGER', '4'), ('n@1', 'INTEGER', '-7'), ('f', 'FLOAT', '-2.25'), ('e', 'ENUM', 'off'), ('s.k', 'STRING', 'a "b"'), ('s@1.k@1', 'STRING', ''), ('s@1.k', 'STRING', '')]]
          + [C('gen', m='m1', ver=[1, 1], c='c2'), C('cset', x='c2', q='s@1.z', t='BOOLEAN', v='false'), C('ser', c='c1', fmt=fmt, d='d1', i='i1'), C('ser', c='c2', fmt=fmt, d='d2', i='i1'), C('unser', d='d1', fmt=fmt, m='m1', c='c3', i='i1'), C('unser', d='d1', fmt=fmt, m='m2', c='c4', i='i1'), C('unser', d='d2', fmt=fmt, m='m1', c='c5', i='i1')],
          [C('dump', c=c, flags=True) for c in ('c1', 'c3', 'c4', 'c5')] + [C('valid', c='c3'), C('valid', c='c4'), C('compare', x='c1', y='c3'), C('compare', x='c2', y='c5')], depth)
docworld('json', 'json', 5); docworld('toml', 'toml', 5)

# A mold built call by call, written and read back.
world('jmold', 'doc', 'DocMC', [C('iblank', i='i1'), C('mbegin', **AS('x1')), C('addkv', x='x1', name='a', t='INTEGER', v='1', doc='kv "1"', intro=[1, 0], **AS('x2')), C('begin', x='x1', k='SECTION', **AS('x3')), C('setname', x='x3', name='s')],
      [C('adddef', x='x2', t='INTEGER', v='-7', intro=[2, 0]), C('adddef', x='x2', t='INTEGER', v='3', intro=[1, 1]), C('addmin', x='x2', n=0, intro=[1, 0]), C('addmax', x='x2', n=2, intro=[1, 1]),
       C('rvadd', x='x2', rt='RANGE', lo='-9', hi='5', intro=[1, 0], **AS('x4')), C('rvadd', x='x2', rt='NUMERIC', n='4', intro=[1, 1], **AS('x5')), C('depr', x='x4', ver=[2, 0]),
       C('addkv', x='x3', name='e', t='FLOAT', v='1.5', doc='', intro=[1, 1], **AS('x6')), C('adddoc', x='x3', v='a section'), C('intro', x='x3', ver=[1, 1]), C('depr', x='x3', ver=[2, 0]), C('depr', x='x2', ver=[2, 0]), C('addmax', x='x3', n=3, intro=[1, 1]), C('adddoc', x='x1', v='all'),
       C('fin', x='x3')],
      [C('fin', x='x3'), C('mfin', x='x1', m='m1'), C('mser', m='m1', d='d1', i='i1'), C('munser', d='d1', m='m2', vers=[None, [1, 0], [1, 1], [2, 0]], i='i1'), C('mvalid', m='m1'), C('gen', m='m2', ver=[1, 1], c='c1'), C('dump', c='c1', flags=True), C('compare', x='m1', y='m2')], 4)
WORLDS['jmold']['fold'] = True
# Documents of a config with one node of it replaced, renamed, doubled or left out: every way to do so.
def doctree(e=None):
    N = lambda k, v: {'k': k, 'v': v}
    O = lambda *kids: {'k': 'object', 'kids': [list(q) for q in kids]}
    A_ = lambda *q: {'k': 'array', 'items': list(q)}
    return O(('e', N('string', 'off')), ('f', N('real', -2.25)), ('n', A_(N('int', 4), N('int', -7))), ('s', A_(O(('k', N('string', 'a "b"')), ('z', N('bool', True))), O(('k', A_(N('string', ''), N('string', 'x')))))))
def variants(t, toml):
    """Every tree that differs from t in one node."""
    N = lambda k, v: {'k': k, 'v': v}
    JUNK = [N('bool', False), N('int', 0), N('int', -1), N('int', 2**31), N('int', 2**53 + 1), N('int', -2**63), N('int', 2**63 - 1), N('real', 1.5), N('real', 1e300), N('real', 4.0), N('string', ''), N('string', 'on'), N('string', '1'),
            {'k': 'array', 'items': []}, {'k': 'object', 'kids': []}, {'k': 'array', 'items': [N('int', 1), N('int', 2), N('int', 3)]}, {'k': 'array', 'items': [{'k': 'object', 'kids': []}, {'k': 'object', 'kids': []}]}, {'k': 'object', 'kids': [['k', N('string', 'q')], ['nosuch', N('int', 1)]]}]
    JUNK += [] if toml else [{'k': 'null'}, N('int', 2**63), {'k': 'array', 'items': [N('int', 1), N('string', 'x')]}, {'k': 'array', 'items': [{'k': 'array', 'items': [N('int', 1)]}]}]
    def walk(x):
        if x['k'] == 'object':
            q = x['kids']
            for i, (n, v) in enumerate(q):
                yield {'k': 'object', 'kids': q[:i] + q[i + 1:]}
                for m in ('nosuch', 'Upper', 'a b', 'f', 's', 'k', 'e@1', 'x.y'):
                    if all(m != z for z, _ in q): yield {'k': 'object', 'kids': q[:i] + [[m, v]] + q[i + 1:]}
                for w in list(walk(v)) + JUNK: yield {'k': 'object', 'kids': q[:i] + [[n, w]] + q[i + 1:]}
            yield {'k': 'object', 'kids': q[::-1]}
        elif x['k'] == 'array':
            q = x['items']
            for i, v in enumerate(q):
                yield {'k': 'array', 'items': q[:i] + q[i + 1:]}
                yield {'k': 'array', 'items': q[:i] + [v, v] + q[i + 1:]}
                for w in list(walk(v)) + ([] if toml else JUNK): yield {'k': 'array', 'items': q[:i] + [w] + q[i + 1:]}
    yield t
    yield from walk(t)
def docvariants(name, fmt):
    import random, gen_doc
    S, r, seen, q = (lambda x: {'k': 'string', 'v': x}), random.Random(7), set(), []
    base = doctree()
    for ver, body in [(S('1.1'), v) for v in variants(base, fmt == 'toml')] + [(v, base) for v in [None, S('1.0'), S('9.0'), S(''), S('1'), S('1.0.0'), S('x'), S('-1.0'), S('4294967296.0'), {'k': 'int', 'v': 1}, {'k': 'real', 'v': 1.5}, {'k': 'bool', 'v': True}]]:
        if fmt == 'toml': body = gen_doc.ordered(body)
        text = gen_doc.text_of(fmt, ver, body, r)
        if repr((ver, body)) in seen: continue
        seen.add(repr((ver, body)))
        q.append(C('docput', d='d1', text=text, _doc=dict(fmt=fmt, ver=ver, body=body)))
    world(name, 'doc', 'DocMC', [C('iblank', i='i1'), C('mold', m='m1', mold=DOCM)], q + [C('unser', d='d1', fmt=fmt, m='m1', c='c1', i='i1')],
          [C('dump', c='c1', flags=True), C('valid', c='c1')], 2)
docvariants('jdocs', 'json'); docvariants('tdocs', 'toml')

# ---------------------------------------------------------------- values and their texts
VALM = dict(els=[K('a', 'INTEGER', ('1', V1)), K('f', 'FLOAT', ('1.5', V1)), K('b', 'BOOLEAN', ('true', V1)), K('t', 'STRING', ('w', V1)), K('e', 'ENUM', ('on', V1), rest=[enum('on'), enum('a rather long member')])])
VTEXTS = {'INTEGER': ['0', '-1', '9', '10', '2147483647', '-2147483648', '4294967296', '9223372036854775807', '-9223372036854775808'], 'FLOAT': ['0.0', '-0.5', '1.25', '1000000.0', '1e15', '-123456.789', '0.000001'],
          'BOOLEAN': ['true', 'false'], 'STRING': ['', 'x', 'two words', 'twelve chars', 'a rather long member'], 'ENUM': ['on', 'a rather long member', 'nosuch', '']}
world('values', 'config', 'ConfigMC', [C('mold', m='m1', mold=VALM), C('gen', m='m1', ver=[1, 0], c='c1')] + [C('hold', x='c1', at=[[n, 0]], **AS(x)) for n, x in (('a', 'x1'), ('f', 'x2'), ('b', 'x3'), ('t', 'x4'), ('e', 'x5'))],
      [C('setv', x=x, t=t, v=v) for x, own in (('x1', 'INTEGER'), ('x2', 'FLOAT'), ('x3', 'BOOLEAN'), ('x4', 'STRING'), ('x5', 'ENUM')) for t in VTEXTS for v in (VTEXTS[t] if t == own else VTEXTS[t][:2])]
      + [C('setv', x=x, t='ANY', v=v) for x in ('x1', 'x2', 'x3', 'x4', 'x5') for v in ('', '7', '-7', '+7', ' 7', '7 ', '1.5', '1e3', 'true', 'TRUE', 'on', '9223372036854775808', '1.5.5')]
      + [C('setself', x=x, t=t, off=n) for x, t in (('x4', 'STRING'), ('x5', 'ENUM')) for n in (0, 1, 2, 5)],
      [C('gettext', x=x, size=n) for x in ('x1', 'x2', 'x3', 'x4', 'x5') for n in (0, 1, 2, 3, 4, 5, 6, 8, 12, 13, 14, 20, 21, 22, 64)] + [C('getv', x=x, t=t) for x in ('x1', 'x2', 'x3', 'x4', 'x5') for t in VTEXTS] + [C('dump', c='c1', flags=True)], 1)

# ---------------------------------------------------------------- stores
def plug(n, fmt='json', no=(), group='grp'):
    return dict(group=group, io='io%d' % n, name='plug%d' % n, fmt=fmt, cx=fmt, mx='mold', cb='c%d' % n, mb='m%d' % n, no=list(no))
SM = dict(els=[K('n', 'INTEGER', ('1', V1), ('2', V2), rest=lim(1, 2))])
SN = dict(els=[K('n', 'INTEGER', ('3', V1), rest=lim(1, 1)), K('t', 'STRING', ('w', V1), rest=lim(1, 1))])
STORE = [C('iblank', i='i1'), C('inst', i='s1', plugs=[plug(0), plug(1, 'toml')]), C('inst', i='s2', plugs=[plug(1, 'toml')]), C('mold', m='m1', mold=SM), C('mold', m='m2', mold=SN),
         C('gen', m='m1', ver=[1, 0], c='c1'), C('gen', m='m2', ver=[1, 0], c='c2')]
def cw(i, e, c, p=0): return C('cwrite', i=i, g='grp', e=e, c=c, fmt='toml' if i == 's2' else 'json', _path='c%d/%s.%s' % (1 if i == 's2' else 0, e, 'toml' if i == 's2' else 'json'))
def asks(*es): return [C(o, i='s1', g='grp', e=e, null=False) for e in es for o in ('cquery', 'mquery')] + [C(o, i=i, g='grp', e='') for i in ('s1', 's2') for o in ('centries', 'mentries')] + [C('fls')]
world('store', 'store', 'StoreMC', STORE + [C('mwrite', i='s1', g='grp', e='a', m='m1'), C('mwrite', i='s2', g='grp', e='b', m='m2')],
      [cw('s1', 'a', 'c1'), cw('s1', 'a', 'c2'), cw('s1', 'b', 'c2'), cw('s2', 'b', 'c2'), cw('s2', 'a', 'c1'), C('cremove', i='s1', g='grp', e='a'), C('cremove', i='s1', g='grp', e='b'), C('cremove', i='s2', g='grp', e='b'),
       C('mwrite', i='s1', g='grp', e='b', m='m1'), C('mwrite', i='s2', g='grp', e='a', m='m2'), C('cset', x='c1', q='n', t='INTEGER', v='8'), C('fput', path='c0/a.json', kind='junk', text='{'), C('fdel', path='m0/a.mold'),
       C('cread', i='s1', g='grp', e='a', c='c3'), C('cread', i='s1', g='grp', e='b', c='c4')],
      asks('a', 'b') + [C('dump', c='c3', flags=True), C('dump', c='c4', flags=True), C('mread', i='s1', g='grp', e='b', m='m9', vers=[None])], 4)
world('names', 'store', 'StoreMC', STORE + [C('mwrite', i='s1', g='grp', e='s/__namespace', m='m1')],
      [cw('s1', 's/x', 'c1'), cw('s1', 's/y', 'c1'), cw('s1', 't', 'c1'), C('mwrite', i='s1', g='grp', e='s/x', m='m2'), C('mwrite', i='s1', g='grp', e='__namespace', m='m2'), C('mwrite', i='s2', g='grp', e='t', m='m2'), cw('s2', 't', 'c2'), C('cremove', i='s1', g='grp', e='s/x'),
       C('fdel', path='m0/s/__namespace.mold'), C('fdel', path='m0/s/x.mold'), C('fput', path='m0/s/x.o.mold', kind='over', text='{"sync": [{"namespace": "1.0", "override": "1.0"}], "override": {"n": {"version": "1.0", "value": 7}}}',
         _over=dict(parse=True, none=False, shape='OK', sync=[['1.0', '1.0']], ovr={'n': [['1.0', {'k': 'int', 'v': 7}]]})),
       C('mread', i='s1', g='grp', e='s/x', m='m8', vers=[None, [1, 0], [1, 1]]), C('cread', i='s1', g='grp', e='s/x', c='c3')],
      asks('s/x', 's/y', 't') + [C('mread', i='s1', g='grp', e='s/x', m='m9', vers=[None, [1, 0], [1, 1]]), C('dump', c='c3', flags=True)], 4)
OV = dict(els=[K('n', 'INTEGER', ('1', V1), ('2', V2), rest=lim(1, 2)), SEC('s', [K('k', 'STRING', ('w', V1))])])
def over(sync, ovr):
    import json
    return C('fput', path='m0/a.o.mold', kind='over', text=json.dumps(dict(sync=[dict(namespace=a, override=b) for a, b in sync], override={n: [dict(version=v, value=w['v']) for v, w in q] for n, q in ovr.items()})), _over=dict(parse=True, none=False, shape='OK', sync=sync, ovr=ovr))
I_ = lambda n: {'k': 'int', 'v': n}
world('over', 'store', 'StoreMC', STORE + [C('mold', m='m3', mold=OV), C('mwrite', i='s1', g='grp', e='__namespace', m='m3')],
      [over([['1.0', '1.0']], {'n': [['1.0', I_(7)]]}), over([['1.1', '2.0']], {'n': [['2.0', I_(7)]]}), over([['1.0', '1.0'], ['1.1', '2.0']], {'n': [['1.0', I_(5)], ['2.0', I_(6)]], 's.k': [['1.0', {'k': 'string', 'v': 'o'}]]}), over([['2.0', '1.0']], {'n': [['1.0', I_(7)]]}),
       over([['1.0', '1.0']], {'n': [['3.0', I_(7)]]}), over([['1.0', '1.0']], {'s': [['1.0', I_(7)]]}), over([['1.1', '1.0']], {'n': [['1.0', {'k': 'string', 'v': 'o'}]]}), C('mwrite', i='s1', g='grp', e='a', m='m3'), C('fdel', path='m0/a.o.mold'), C('fdel', path='m0/__namespace.mold'),
       C('mread', i='s1', g='grp', e='a', m='m8', vers=[None, [1, 0], [1, 1]]), C('gen', m='m8', c='c5'), cw('s1', 'a', 'c5'), C('cread', i='s1', g='grp', e='a', c='c3')],
      asks('a') + [C('mread', i='s1', g='grp', e='a', m='m9', vers=[None, [1, 0], [1, 1], [2, 0]]), C('dump', c='c3', flags=True)], 4)
# ---------------------------------------------------------------- disturbed writes
def torn(op, f, seen, **kw): return C(op, i='s1', g='grp', fault=f, _as=seen, **kw)
TORN = [dict(op='cwrite', e='a', c='c1', fmt='json', _path='c0/a.json'), dict(op='cwrite', e='b', c='c2', fmt='json', _path='c0/b.json'), dict(op='cremove', e='a', _path='c0/a.json'), dict(op='mwrite', e='a', m='m2', _path='m0/a.mold')]
world('torn', 'store', 'StoreMC', STORE + [C('mwrite', i='s1', g='grp', e=e, m='m' + k) for e, k in (('a', '1'), ('b', '2'))] + [cw('s1', 'a', 'c1')],
      [torn(f=dict(k='crash', n=n), seen=('CRASHED', n < 4), **q) for q in TORN for n in range(1, 8)]
      + [torn(f=dict(k='fail', n=n, e=28), seen=('FS_ERROR', True), **q) for q in TORN for n in range(1, 7)]
      + [torn(f=dict(k='full', n=n), seen=(('OK', False) if n > 500 else ('FS_ERROR', True)), **q) for q in TORN for n in (0, 20, 60, 4096)]
      + [C('cset', x='c1', q='n', t='INTEGER', v='8'), cw('s1', 'b', 'c1'), C('fdel', path='c0/a.json')],
      [C('fls'), C('centries', i='s1', g='grp', e=''), C('cread', i='s1', g='grp', e='a', c='c8'), C('cread', i='s1', g='grp', e='b', c='c9'), C('mread', i='s1', g='grp', e='a', m='m9', vers=[None])], 2)
# ---------------------------------------------------------------- archives
ARC = STORE + [C('mwrite', i='s1', g='grp', e='a', m='m1'), C('mwrite', i='s1', g='grp', e='s/__namespace', m='m1'), cw('s1', 'a', 'c1'), cw('s1', 's/x', 'c1'), C('mkd', path='arc')]
FAULTS = [dict(k='fail', n=n, e=e) for n in range(1, 13) for e in (5, 28)] + [dict(k='full', n=n) for n in (0, 1, 100, 300, 600, 1200)]
LOOK = ['arc/one.disir', 'arc/two.disir', 'arc/one.disir.backup', 'arc/two.disir.backup']
def afin(i='s1', **kw): return C('afin', i=i, a='ar1', _look=LOOK if 'path' in kw else [], **kw)
world('export', 'archive', 'ArchiveMC', ARC,
      [C('abegin', i='s1', a='ar1'), C('abegin', i='s1', a='ar1', path='arc/one.disir'), C('aentry', i='s1', a='ar1', g='grp', e='a'), C('aentry', i='s1', a='ar1', g='grp', e='s/x'), C('aentry', i='s1', a='ar1', g='grp', e='b'), C('agroup', i='s1', a='ar1', g='grp', e=''),
       afin(path='arc/one.disir'), afin(path='arc/two.disir'), afin(), afin(path='nodir/one.disir'), C('cset', x='c1', q='n', t='INTEGER', v='8'), cw('s1', 'a', 'c1'), C('cremove', i='s1', g='grp', e='s/x')],
      [C('aimport', i='s1', p='p9', path='arc/one.disir'), C('fls')], 5)
world('import', 'archive', 'ArchiveMC', ARC + [C('abegin', i='s1', a='ar1'), C('agroup', i='s1', a='ar1', g='grp', e=''), afin(path='arc/one.disir')],
      [C('cset', x='c1', q='n', t='INTEGER', v='8'), cw('s1', 'a', 'c1'), C('cremove', i='s1', g='grp', e='s/x'), C('mwrite', i='s1', g='grp', e='a', m='m2'), C('fdel', path='m0/s/__namespace.mold'), C('aimport', i='s1', p='p1', path='arc/one.disir')]
      + [C('ires', i='s1', p='p1', g='grp', e=e, opt=o) for e in ('a', 's/x') for o in ('DO', 'FORCE', 'UPDATE', 'DISCARD')] + [C('ifin', i='s1', p='p1', opt=o, report=True, _paths=['c0/a.json', 'c0/s/x.json']) for o in ('DO', 'DISCARD')],
      [C('istat', i='s1', p='p1', g='grp', e='a'), C('fls'), C('cread', i='s1', g='grp', e='a', c='c8')], 4)
world('faults', 'archive', 'ArchiveMC', ARC + [C('abegin', i='s1', a='ar1'), C('aentry', i='s1', a='ar1', g='grp', e='a'), afin(path='arc/one.disir')],
      [C('abegin', i='s1', a='ar1', path='arc/one.disir'), C('abegin', i='s1', a='ar1'), C('aentry', i='s1', a='ar1', g='grp', e='s/x')]
      + [afin(path=p, fault=dict(k='crash', n=n)) for p in ('arc/one.disir', 'arc/two.disir') for n in range(1, 15)]
      + [afin(path=p, fault=f) for p in ('arc/one.disir', 'arc/two.disir') for f in FAULTS],
      [C('abegin', i='s1', a='ar2', path='arc/one.disir'), C('aimport', i='s1', p='p9', path='arc/one.disir'), C('fls')], 3)
# ---------------------------------------------------------------- versions and error texts
import itertools
EDGES = [0, 1, 9, 10, 99, 2**31 - 1, 2**31, 2**32 - 2, 2**32 - 1]
GRID = [[a, b] for a in EDGES for b in EDGES]
TEXTS_ = [''.join(q) for n in range(0, 6) for q in itertools.product('019.', repeat=n)] + [''.join(q) for n in range(1, 5) for q in itertools.product('1.-+ x', repeat=n)]
TEXTS_ += ['%s.%s' % (a, b) for a in ('4294967295', '4294967296', '04294967295', '99999999999', '18446744073709551617') for b in ('0', '4294967295', '4294967296', '000', '18446744073709551616')]
world('order', 'version', 'VersionMC', [], [C('vcmp', a=a, b=b) for a in GRID for b in GRID], [], 1)
world('text', 'version', 'VersionMC', [], [C('vparse', s=t) for t in sorted(set(TEXTS_))] + [C('vprint', ver=v, size=n) for v in GRID for n in list(range(0, 24)) + [500]] + [C('vset', a=v, b=[7, 7]) for v in GRID], [], 1)
for n in ('order', 'text'): WORLDS[n]['stateless'] = True
LONG = 'a text of forty-one bytes, which is long.'
world('errors', 'error', 'ErrorMC', [C('iblank', i='i1')],
      [C('ierrset', i='i1', v=t) for t in ('', 'x', LONG)] + [C('ierrwrap', i='i1', a='<', b='>'), C('ierrwrap', i='i1', a=LONG, b=''), C('ierrclear', i='i1'), C('iblank', i='i2'), C('ierrset', i='i2', v='other'), C('ifree', i='i2')],
      [C('ierr', i='i1'), C('ierr', i='i2')] + [C('ierrcopy', i='i1', size=n) for n in (0, 1, 3, 4, 5, 41, 42, 43, 44)], 4)
