"""Histories in which configs and molds are written as documents and read back, documents are put
together by hand, and arbitrary bytes are offered as documents."""
import json, re
import enc, gen_config
import genmold as gm
from gen_config import Gen, Session

BASE = dict(cset=16, destroyat=6, setver=3, gen=5, cfree=4, dump=2, valid=2, hold=3, findh=3, put=4, setv=6, begin=3, setname=3, fin=3, finkeep=1, compare=3, cget=3, query=2, limits=1)
WD = {
 'json':  dict(BASE, trip=26, ser=8, unser=8, put_doc=14, cross=6),
 'toml':  dict(BASE, trip=26, ser=8, unser=8, put_doc=14, cross=6),
 'bytes': dict(cset=6, gen=3, cfree=5, destroyat=2, ser=4, hack=60, unser=3, put_doc=10, dump=1, cget=2, query=1),
 'jmold': dict(mtrip=30, mmore=20, gen=8, cfree=4, compare=6, cset=4, setver=1, getdef=4, limits=4),
 'mbytes': dict(mhack=70, mmore=6, gen=6, cfree=6, cset=2),
}
gen_config.W.update(WD)
gen_config.FIRST.update({k: 0 for k in WD})
TEXTS = ['', 'plain', 'two words', 'line\nbreak', 'tab\there', 'quote " and \' here', 'back\\slash', '\x01\x1f', 'ünïcode 漢字', '# no comment', '[x]', '{"a": 1}', 'true', '12', '1.5', '\r\n', '/* c */ // d', '\x7f', 'a' * 200, '\\u0041', '\b\f', '😀', '"""', "'''"]
def long(r):
    """A text longer than the buffers documents and archives are copied through."""
    n = r.choice([127, 128, 511, 512, 513, 1024, 4095, 4096, 5000, 8191, 8192, 8193, 10000, 17000])
    return ''.join('%d.' % i for i in range(n))[:n]
FLOATS = ['0.1', '0.30000000000000004', '1e100', '1.5e-300', '123456789.12345678', '1e15', '1e16', '1e17', '3.0', '-2.0', '2.5', '1e21', '0.000001', '1.0000001', '5e-324', '1.7976931348623157e+308', '-123456.789012345', '100', '9007199254740993', '4503599627370496.5', '0.1234567']
VSTR = ['1.0', '1.1', '1.2', '2.0', '2.5', '3.0', '10.0', '10.2', '0.5', '4.0', '1.0.0', '1', '', 'x', '1.', '.1', '-1.0', '1.-1', '99999999999.0', '1.99999999999', '4294967295.0', '1.2x', ' 1.1', 'one.two', '0.0', '1.0junk']

# ---------------------------------------------------------------- documents as text
def S_(x): return {'k': 'string', 'v': x}
def value_node(t, v):
    if t == 'INTEGER': return {'k': 'int', 'v': int(v)}
    if t == 'FLOAT': return {'k': 'real', 'v': float(v)}
    if t == 'BOOLEAN': return {'k': 'bool', 'v': v == 'true'}
    return S_(v)
def to_json(t, r=None):
    k = t['k']
    sp = (lambda: '') if r is None else (lambda: r.choice(['', '', ' ', '\n', '\t  ']))
    if k == 'object': return '{' + sp() + ','.join(sp() + json.dumps(n, ensure_ascii=bool(r and r.random() < 0.3)) + sp() + ':' + sp() + to_json(v, r) for n, v in t['kids']) + sp() + '}'
    if k == 'array': return '[' + sp() + ','.join(sp() + to_json(v, r) + sp() for v in t['items']) + ']'
    if k == 'string': return json.dumps(t['v'], ensure_ascii=bool(r and r.random() < 0.3))
    if k == 'int': return str(t['v'])
    if k == 'real': return repr(t['v'])
    if k == 'bool': return 'true' if t['v'] else 'false'
    return 'null'
ESC = {'\b': '\\b', '\t': '\\t', '\n': '\\n', '\f': '\\f', '\r': '\\r', '"': '\\"', '\\': '\\\\'}
def tstr(s): return '"' + ''.join(ESC.get(ch) or ('\\u%04X' % ord(ch) if ord(ch) < 32 or ord(ch) == 127 else ch) for ch in s) + '"'
def tkey(n): return n if re.fullmatch(r'[A-Za-z0-9_-]+', n) else tstr(n)
def to_inline(t):
    k = t['k']
    if k == 'object': return '{' + ', '.join(tkey(n) + ' = ' + to_inline(v) for n, v in t['kids']) + '}'
    if k == 'array': return '[' + ', '.join(to_inline(v) for v in t['items']) + ']'
    if k == 'string': return tstr(t['v'])
    if k == 'int': return str(t['v'])
    if k == 'real':
        s = repr(t['v'])
        return s if '.' in s or 'e' not in s else s.replace('e', '.0e')
    if k == 'bool': return 'true' if t['v'] else 'false'
    return '1979-05-27T07:32:00Z'
def to_toml(t, r, path=()):
    """Plain keys first, then tables: in headers, as arrays of tables, or inline."""
    top, sub = [], []
    for n, v in t['kids']:
        if v['k'] == 'object' and r.random() < 0.75:
            sub.append('[%s]\n%s' % ('.'.join(tkey(x) for x in path + (n,)), to_toml(v, r, path + (n,))))
        elif v['k'] == 'array' and v['items'] and all(x['k'] == 'object' for x in v['items']) and r.random() < 0.75:
            for x in v['items']: sub.append('[[%s]]\n%s' % ('.'.join(tkey(y) for y in path + (n,)), to_toml(x, r, path + (n,))))
        else: top.append('%s = %s%s\n' % (tkey(n), to_inline(v), r.choice(['', '', ' # note'])))
    return ''.join(top) + ''.join(sub)

def ordered(t):
    """TOML tables are read in the order of their keys."""
    if t['k'] == 'object': return {'k': 'object', 'kids': sorted(([n, ordered(v)] for n, v in t['kids']), key=lambda q: q[0].encode())}
    if t['k'] == 'array': return {'k': 'array', 'items': [ordered(v) for v in t['items']]}
    return t
def text_of(fmt, ver, body, r):
    if fmt == 'json':
        kids = ([['version', ver]] if ver else []) + ([['config', body]] if body else [])
        if r.random() < 0.2: kids.insert(r.randrange(len(kids) + 1), ['other', {'k': 'array', 'items': [S_('x'), {'k': 'null'}]}])
        if r.random() < 0.3: kids.reverse()
        return to_json({'k': 'object', 'kids': kids}, r)
    head = '"@DISIR_CONFIG_VERSION" = %s\n' % to_inline(ver) if ver else ''
    return head + to_toml(body, r)

class DGen(Gen):
    def __init__(self, r, S, profile):
        Gen.__init__(self, r, S, profile)
        self.docs, self.mdocs, self.texts, self.foreign = {}, {}, [], set()
        self.fmts = {'json': ['json'], 'toml': ['toml']}.get(profile, ['json', 'toml'])
    def room(self): return len(self.C) < 5
    def value(self, e, t=None):
        t, v = Gen.value(self, e, t)
        if t == 'STRING' and self.r.random() < 0.3: v = self.r.choice(TEXTS)
        elif t == 'STRING' and self.r.random() < 0.04: v = long(self.r)
        if t == 'FLOAT' and self.r.random() < 0.3: v = '%.17g' % float(self.r.choice(FLOATS))
        return t, v
    # ------------------------------------------------------------ configs
    def ser(self, c):
        d = self.fresh('d'); fmt = self.r.choice(self.fmts)
        if c in self.foreign: return None       # text that is not UTF-8 has no form in JSON
        a = self.S('ser', c=c, fmt=fmt, d=d, i='i1')
        if a['st'] != 'OK': return None
        self.docs[d] = (fmt, self.C[c]); self.texts.append((fmt, a['text'], self.C[c]))
        return d
    def do_valid(self):
        c = self.config()
        if c: self.S('valid', c=c)
    def do_ser(self):
        if self.C: self.ser(self.config())
    def unser(self, d, m=None):
        fmt, m0 = self.docs[d]; c = self.fresh('c')
        a = self.S('unser', d=d, fmt=fmt, m=m or m0, c=c, i='i1')
        if a.get('cfg'):
            self.C[c] = m or m0; self.tree[c] = a['d']
            if 'hex:' in json.dumps(a['d']): self.foreign.add(c)
            return c
    def do_unser(self):
        if self.docs and self.room(): self.unser(self.r.choice(sorted(self.docs)))
    def do_cross(self):
        """Read with another mold than it was written with."""
        if self.docs and self.room(): self.unser(self.r.choice(sorted(self.docs)), self.r.choice(sorted(self.molds)))
    def do_trip(self):
        if not self.C or not self.room(): return
        c = self.config(); d = self.ser(c)
        if d is None: return
        c2 = self.unser(d)
        if c2 is None: return
        if self.r.random() < 0.3: self.S('valid', c=c2)
        self.S('compare', x=c, y=c2, norep=True)
        if self.r.random() < 0.5: self.S('cfree', c=c2); self.C.pop(c2, None); self.tree.pop(c2, None)
    # ------------------------------------------------------------ documents by hand
    def node(self, e, toml, depth=0):
        r = self.r
        x = r.random()
        if x < 0.03: return r.choice([{'k': 'null' if not toml else 'time'}, {'k': 'array', 'items': []}, {'k': 'object', 'kids': []}, {'k': 'int', 'v': r.choice([2**63 - 1, -2**63] + ([] if toml else [2**63, 2**64 - 1, 2**64, -2**63 - 1]))}])
        if e['k'] == 'SECTION':
            if x < 0.06: return value_node(*self.value(None))
            return self.body(e['els'], toml, depth + 1)
        if x < 0.05: return {'k': 'object', 'kids': [['a', S_('x')]]}
        if x < 0.08: return {'k': 'int', 'v': r.choice([0, 1, 7])}
        return value_node(*self.value(e))
    def body(self, els, toml, depth=0):
        r = self.r; kids = []
        for e in els:
            n = r.choices([0, 1, 2, 3], [2, 10, 3, 2])[0]
            if not n: continue
            q = [self.node(e, toml, depth) for _ in range(n)]
            if n > 1 and toml and any(x['k'] != q[0]['k'] for x in q): q = q[:1]
            v = q[0] if len(q) == 1 and r.random() < 0.85 else {'k': 'array', 'items': q}
            if v['k'] == 'array' and r.random() < 0.08 and not toml: v = {'k': 'array', 'items': [v, S_('x')]}
            name = e['name'] if r.random() < 0.98 else r.choice(['nosuch', 'Upper', 'a b', 'ø', '', 'dotted.key', 'a@1', 'with"quote'])
            if name == '' and (toml or r.random() < 0.5): name = 'nosuch'
            if any(n == name for n, _ in kids): continue
            kids.append([name, v])
        if r.random() < 0.07: kids.insert(r.randrange(len(kids) + 1), [r.choice(['extra', 'unknown_key']), r.choice([S_('v'), {'k': 'int', 'v': 3}, {'k': 'real', 'v': 1.5}, {'k': 'bool', 'v': True}, {'k': 'object', 'kids': [['sub', {'k': 'bool', 'v': False}]]}])])
        if r.random() < 0.3: r.shuffle(kids)
        names = set()
        return {'k': 'object', 'kids': [q for q in kids if not (q[0] in names or names.add(q[0]))]}
    def vernode(self, m):
        r = self.r; x = r.random(); mv = gm.version(self.molds[m])
        if x < 0.5: return S_('%d.%d' % tuple(mv))
        if x < 0.6: return S_('1.0')
        if x < 0.85: return S_(r.choice(VSTR))
        if x < 0.93: return None
        return r.choice([{'k': 'int', 'v': 1}, {'k': 'real', 'v': 1.5}, {'k': 'bool', 'v': True}])
    def put_text(self, fmt, text, doc, m):
        d = self.fresh('d')
        t = text if isinstance(text, str) and not text.startswith('hex:') and not any(0xd800 <= ord(ch) < 0xe000 for ch in text) else 'hex:' + (text.encode('utf-8', 'surrogatepass') if isinstance(text, str) else text).hex()
        if isinstance(text, bytes): t = 'hex:' + text.hex()
        self.S('docput', d=d, text=t, _doc=doc)
        self.docs[d] = (fmt, m)
        return d
    def do_put_doc(self):
        r = self.r; m = r.choice(sorted(self.molds)); fmt = r.choice(self.fmts)
        ver = self.vernode(m)
        body = self.body(self.molds[m]['els'], fmt == 'toml')
        if fmt == 'toml': body = ordered(body)
        elif r.random() < 0.05: body = r.choice([None, S_('x'), {'k': 'array', 'items': []}, {'k': 'null'}, {'k': 'int', 'v': 3}])
        text = text_of(fmt, ver, body, r)
        d = self.put_text(fmt, text, dict(fmt=fmt, ver=ver, body=body), m)
        self.texts.append((fmt, text, m))
        if self.room(): self.unser(d)
    # ------------------------------------------------------------ any bytes
    def do_hack(self):
        r = self.r
        if not self.room():
            c = self.config(); self.S('cfree', c=c); self.C.pop(c); self.tree.pop(c, None)
            return
        if not self.texts or r.random() < 0.1:
            m = r.choice(sorted(self.molds)); fmt = r.choice(self.fmts)
            text = text_of(fmt, self.vernode(m), self.body(self.molds[m]['els'], fmt == 'toml'), r)
        else: fmt, text, m = r.choice(self.texts)
        b = hack(r, text.encode('utf-8', 'surrogatepass'), fmt)
        d = self.put_text(fmt, b, None, m)
        self.unser(d)
    # ------------------------------------------------------------ molds
    def vers(self, m):
        return [None] + [list(v) for v in self.r.sample(gm.VERS, 3)] + [gm.version(self.molds[m])]
    def do_mmore(self):
        """Another mold, and its document."""
        r = self.r
        if len(self.molds) > 6: return
        m = self.fresh('m')
        q = gm.mold(r, depth=r.choice([0, 1, 1, 2, 3])) if r.random() < 0.6 else gm.mutate(r, self.molds[r.choice(sorted(self.molds))])
        spice(r, q)
        if self.S('mold', m=m, mold=q)['st'] == 'OK': self.molds[m] = q
    def do_mtrip(self):
        r = self.r; m = r.choice(sorted(self.molds)); d = self.fresh('d'); m2 = self.fresh('m')
        if len(self.molds) > 9: return
        if self.S('mser', m=m, d=d, i='i1')['st'] != 'OK': return
        v = self.vers(m)
        a = self.S('munser', d=d, m=m2, vers=v, i='i1')
        if a['st'] == 'OK':
            self.molds[m2] = plainmold(self.molds[m])
            if r.random() < 0.4: self.S('compare', x=m, y=m2)
            if r.random() < 0.5:
                self.do_genof(m2)
    def do_genof(self, m):
        if not self.room(): return
        c = self.fresh('c')
        a = self.S('gen', m=m, ver=self.version(m), c=c)
        if a['st'] == 'OK': self.C[c] = m; self.refresh(c)
    def do_mhack(self):
        r = self.r; m = r.choice(sorted(self.molds)); m2 = self.fresh('m')
        if len(self.molds) > 9: return
        if m not in self.mdocs:
            a = self.S('mser', m=m, d=self.fresh('d'), i='i1')
            if a['st'] != 'OK': return
            self.mdocs[m] = a['text']
        text = self.mdocs[m]
        b = mangle(r, text) if r.random() < 0.75 else hack(r, text.encode('utf-8', 'surrogatepass'), 'json')
        d = self.put_text('json', b, None, m)
        a = self.S('munser', d=d, m=m2, vers=[None, [1, 0], [1, 1], [2, 5]], i='i1')
        self.docs.pop(d, None)
        if a.get('d') and big_limit(a['d']): self.S.log.pop(); return    # (limits that are no int are not modelled)
        if a['st'] == 'OK' and a.get('mold'):
            q = mold_of(a['d'])
            if q and gm.size(q) < 80:
                self.molds[m2] = q
                if r.random() < 0.4: self.do_genof(m2)
def big_limit(d):
    return any(x['rt'] in ('MIN', 'MAX') and abs(float(x['n'])) >= 2**31 for x in d.get('rest', [])) or any(big_limit(e) for e in d.get('els', []))
def plainmold(m): return m
def mold_of(d):
    """The generator's picture of a mold it was given (only used to choose calls)."""
    def el(e):
        return {'k': e['k'], 'name': e['name'], 't': e.get('t', 'UNKNOWN'), 'rest': [dict(x, docs=[]) for x in e['rest']],
                'defs': [{'v': x['v'], 'intro': x['intro']} for x in e.get('defs', [])], 'els': [el(x) for x in e.get('els', [])],
                **({'intro': e['intro']} if isinstance(e['intro'], list) else {}), **({'depr': e['depr']} if isinstance(e['depr'], list) and e['depr'] != [0, 0] else {})}
    try: return {'els': [el(e) for e in d['els']]}
    except Exception: return None
def spice(r, m):
    """Documentation, texts and numbers that are hard to write down."""
    gm.docs(r, m, n=1, p=0.4)
    for e in gm.all_elements(m):
        for d in e['defs']:
            if e['t'] == 'STRING' and r.random() < 0.3: d['v'] = r.choice(TEXTS)
            if e['t'] == 'FLOAT' and r.random() < 0.3: d['v'] = r.choice(FLOATS)
    for e in gm.all_elements(m):
        for x in [e] + e['rest']:
            for d in x.get('docs', []):
                if r.random() < 0.3: d['v'] = r.choice(TEXTS)
    return m

def hack(r, b, fmt):
    """Bytes near a document."""
    x = r.random()
    if x < 0.03: return b''
    if x < 0.05: return bytes(r.randrange(256) for _ in range(r.choice([1, 5, 40, 400])))
    if x < 0.08:
        n = r.choice([50, 120, 3000, 20000])
        if fmt == 'json': return r.choice([b'[' * n, b'{"a":' * n, b'{"version": "1.0", "config": {"a": ' + b'[' * n + b']' * n + b'}}', b'{"version": "1.0", "config": ' + b'{"a": ' * n + b'1' + b'}' * n + b'}'])
        return r.choice([b'a = ' + b'[' * n, b'a = ' + b'[' * n + b']' * n, b'a = ' + b'{a = ' * n, b'[' + b'a.' * n + b'a]\nb = 1\n', b'a = ' + b'{a = ' * min(n, n if n > 1000 else 150) + b'1' + b'}' * min(n, n if n > 1000 else 150)])
    if x < 0.11:
        if fmt == 'json': return r.choice([b'[]', b'""', b'3', b'null', b'{}', b'[{"version": "1.0"}]', b'{"version": "1.0"}', b'{"version": "1.0", "config": []}', b'{"config": {}}', b'true', b'{"version": null, "config": {}}', b'{"version": ["1.0"], "config": {}}'])
        return r.choice([b'\n', b'#', b'[]\n', b'[[]]\n', b'= 1\n', b'a\n', b'a =\n', b'a = 1 2\n', b'"@DISIR_CONFIG_VERSION" = 1\n', b'"@DISIR_CONFIG_VERSION" = "x"\n', b'"@DISIR_CONFIG_VERSION" = "%s%n%s"\n', b'%s%n%d = %s\n', b'[a]\n[a]\n', b'a = 1\n[a]\nb = 2\n', b'[[a]]\n[a]\n', b'a = [1, "x"]\n', b'a = 1979-05-27T07:32:00Z\n', b'a.b.c = 1\n', b'"a.b" = 1\n', b"'a' = 1\n", b'a = +\n', b'a = -\n', b'a = 99999999999999999999\n', b'a = 1e999\n', b'a = 1__0\n', b'a = {b = 1, b = 2}\n', b'a = {"" = 1}\n', b'a = {"x y" = 1}\n', b'a = {"[" = 1}\n', b'"[" = 1\n', b'["x]y"]\nz = 1\n', b'a = """x\n', b'a = "\\u12"\n', b'a = "\\UFFFFFFFF"\n', b"a = '''\n", b'a = "x\n'])
    tok = [b'"', b'\\', b'{', b'}', b'[', b']', b',', b':', b'=', b'.', b'\n', b'null', b'true', b'0', b'-', b'+', b'1e5', b'1e400', b'99999999999999999999999', b'\x00', b'\xff', b'\xc3', b"'", b'"""', b'#', b'//', b'/*', b'%s', b'%n', b'@', b'_', b' ', b'[[', b']]', b'18446744073709551615', b'9223372036854775808', b'-9223372036854775809', b'\\u0000', b'\\ud800', b'1.', b'.5', b'inf', b'nan', b'1979-05-27T07:32:00Z', b'"@DISIR_CONFIG_VERSION"', b'version', b'config', b'{}', b'[]', b'""']
    for _ in range(r.choice([1, 1, 1, 2, 4])):
        i = r.randrange(len(b) + 1); j = min(len(b), i + r.choice([0, 1, 1, 2, 5, 20]))
        y = r.random()
        if y < 0.4: b = b[:i] + r.choice(tok) + b[i:]
        elif y < 0.6: b = b[:i] + b[j:]
        elif y < 0.8: b = b[:i] + r.choice(tok) + b[j:]
        elif y < 0.88: b = b[:i]
        elif y < 0.94: b = b[:j] + b[i:]
        else:
            q = b.split(b'\n'); k = r.randrange(len(q)); q.insert(r.randrange(len(q) + 1), q[k]); b = b'\n'.join(q)
    return b
JUNK = [None, True, 0, -1, 3, 1.5, 'x', '', [], {}, [1], ['x'], {'a': 1}, [[]], '1.0', '2.5', 'x.y', '-1.0', 2**63, 2**64, 1e300, [1, 'x'], ['x', 1], [3, 1], [None, None], 'RANGE', 'NUMERIC', 'ENUM', 'MINIMUM_ENTRIES', 'MAXIMUM_ENTRIES', 'INTEGER', 'STRING', 'BOOLEAN', 'FLOAT', 'UNKNOWN', {'type': 'STRING'}, {'defaults': []}, {'elements': {}}, {'elements': None}, [None], [[1, 2]], {'value': 1}]
def mangle(r, text):
    """A document of a mold, with some of its nodes replaced, removed, renamed or doubled."""
    t = json.loads(text)
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        spots = []
        def walk(x):
            if isinstance(x, dict):
                for k in x: spots.append((x, k)); walk(x[k])
            elif isinstance(x, list):
                for i in range(len(x)): spots.append((x, i)); walk(x[i])
        walk(t)
        if not spots: break
        p, k = r.choice(spots); y = r.random()
        if y < 0.45: p[k] = json.loads(json.dumps(r.choice(JUNK)))
        elif y < 0.65: p.pop(k)
        elif y < 0.78 and isinstance(p, dict): p[r.choice(['a', 'key', 'Upper', 'x y', '', 'ø', 'introduced', 'deprecated', 'elements', 'defaults', 'value', 'type', 'restrictions', 'documentation', 'mold'])] = p.pop(k)
        elif y < 0.9 and isinstance(p, list): p.append(json.loads(json.dumps(p[k])))
        elif isinstance(p, dict):
            q, l = r.choice(spots)
            try: p[k] = json.loads(json.dumps(q[l]))
            except (KeyError, IndexError, TypeError, ValueError): pass
    return json.dumps(t, ensure_ascii=r.random() < 0.5)

def scenario(r, drv, profile, steps):
    S = Session(drv); g = DGen(r, S, profile)
    S('reset'); S('iblank', i='i1')
    m = gm.mold(r, depth=r.choice([0, 1, 1, 2, 2, 3]))
    if profile in ('jmold', 'mbytes'): spice(r, m)
    elif r.random() < 0.5:
        for e in gm.all_elements(m):          # room for several entries
            if r.random() < 0.5: e['rest'] = [x for x in e['rest'] if x['rt'] not in ('MIN', 'MAX')] + [{'rt': 'MAX', 'n': '0'}]
    g.molds['m1'] = m
    if S('mold', m='m1', mold=m)['st'] != 'OK': return S.log
    if profile in ('json', 'toml', 'bytes') and r.random() < 0.5:
        m2 = gm.mutate(r, m) if r.random() < 0.6 else gm.mold(r, depth=1); g.molds['m2'] = m2
        if S('mold', m='m2', mold=m2)['st'] != 'OK': return S.log
    g.do_gen()
    for i in range(steps):
        g.step()
        if S.dead: break
    if not S.dead: g.finish()
    return S.log

# ---------------------------------------------------------------- encoding
def parse_version(s):
    m = re.match(r'^(\d+)\.(\d+)', s)
    if not m: return None
    a, b = int(m.group(1)), int(m.group(2))
    return (a, b) if a < 2**32 and b < 2**32 else None
class Num(str): pass
def parse_json(text):
    def obj(kids): return {'k': 'object', 'kids': [[n, v] for n, v in kids]}
    def conv(x):
        if isinstance(x, dict): return {'k': 'object', 'kids': [[n, conv(v)] for n, v in x['kids']]}
        if isinstance(x, list): return {'k': 'array', 'items': [conv(v) for v in x]}
        if isinstance(x, bool): return {'k': 'bool', 'v': x}
        if isinstance(x, int): return {'k': 'int', 'v': x}
        if isinstance(x, float): return {'k': 'real', 'v': x}
        if x is None: return {'k': 'null'}
        return S_(x)
    return conv(json.loads(text, object_pairs_hook=obj, strict=False))
def walk_tree(t, N, names):
    if t is None: return
    if t['k'] == 'object':
        for n, v in t['kids']: names.add(n); walk_tree(v, N, names)
    elif t['k'] == 'array':
        for v in t['items']: walk_tree(v, N, names)
    elif t['k'] in ('int', 'real'): N.nums.add(float(t['v']))
def tree(t, N):
    k = t['k']
    if k == 'object': return {'k': k, 'kids': [{'n': n, 'v': tree(v, N)} for n, v in t['kids']]}
    if k == 'array': return {'k': k, 'items': [tree(v, N) for v in t['items']]}
    if k == 'int':
        v = t['v']
        if 2**63 <= v < 2**64: return {'k': 'uint'}
        if not -2**63 <= v < 2**63: return {'k': 'real', 'f': enc.value('FLOAT', float(v), N)}
        return {'k': 'int', 'i': enc.value('INTEGER', str(v), N), 'f': enc.value('FLOAT', float(v), N)}
    if k == 'real': return {'k': k, 'f': enc.value('FLOAT', t['v'], N)}
    if k == 'bool': return {'k': k, 'v': enc.value('BOOLEAN', 'true' if t['v'] else 'false', N)}
    if k == 'string': return {'k': k, 'v': enc.value('STRING', t['v'], N)}
    return {'k': k}
def shape(t):
    k = t['k']
    if k == 'object': return {'k': k, 'kids': [{'n': n, 'v': shape(v)} for n, v in sorted(t['kids'], key=lambda q: q[0].encode('utf-8', 'surrogatepass'))]}
    if k == 'array': return {'k': k, 'items': [shape(v) for v in t['items']]}
    if k == 'int': return {'k': 'number', 'v': str(t['v'])}
    if k == 'real': return {'k': 'number', 'v': '%.17g' % t['v']}
    if k == 'bool': return {'k': k, 'v': 'true' if t['v'] else 'false'}
    return {'k': k, 'v': t.get('v', '')}
def child(t, n):
    for q, v in t['kids']:
        if q == n: return v
def version_rec(v, N):
    if v is None or v['k'] == 'null': return {'k': 'none', 'v': 0}
    if v['k'] != 'string': return {'k': 'mis', 'v': 0}
    p = parse_version(v['v'])
    return {'k': 'ok', 'v': N.v(p)} if p else {'k': 'bad', 'v': 0}
MISSING = {'k': 'missing'}
def seen_cfg(d, N):
    def el(e):
        o = {'k': e['k'], 'name': e['name'], 'inv': e['inv']}
        if e['k'] == 'KEYVAL':
            o['t'] = e['t']
            if e['v'] is None: e = dict(e, v='(err)')
            try: o['v'] = enc.value(e['t'], e['v'], N)
            except (TypeError, ValueError): o['v'] = {'s': str(e['v']), 'n': 0, 'x': str(e['v'])}
        else: o['els'] = [el(x) for x in e['els']]
        return o
    return {'ver': N.v(d['ver']) if isinstance(d['ver'], list) else -1, 'inv': d['inv'], 'els': [el(e) for e in d['els']]}
def rank(N, s): return N.nmap[float(s)]
def seen_mold(d, N):
    def docs(q): return [] if not q or str(q[0]).startswith('ERR ') else [{'v': q[0], 'intro': 0}]
    def rest(x):
        t = x['rt']
        o = {'rt': t, 'n': 0, 'lo': 0, 'hi': 0, 's': x.get('s', ''), 'intro': N.v(x['intro']), 'depr': N.v(x['depr']), 'docs': docs(x['docs'])}
        if t in ('MIN', 'MAX'): o['n'] = int(float(x['n']))
        elif t == 'RANGE': o['lo'], o['hi'] = rank(N, x['lo']), rank(N, x['hi'])
        elif t == 'NUMERIC': o['lo'] = rank(N, x['n'])
        return o
    def el(e):
        t = e.get('t', 'UNKNOWN')
        def val(v):
            try: return enc.value(t, v, N)
            except (TypeError, ValueError): return {'s': str(v), 'n': 0, 'x': str(v)}
        return {'k': e['k'], 'name': e['name'], 't': t, 'defs': [{'v': val(x['v']), 'intro': N.v(x['intro'])} for x in e.get('defs', [])],
                'rest': [rest(x) for x in e['rest']], 'intro': N.v(e['intro']) if isinstance(e['intro'], list) else 1000,
                'depr': N.v(e['depr']) if isinstance(e['depr'], list) else 0, 'docs': docs(e['docs']), 'els': [el(x) for x in e.get('els', [])]}
    return {'els': [el(e) for e in d['els']], 'docs': docs(d['docs'])}
def ranked(d, N):
    """Bounds of restrictions as ranks, in an (already translated) dump of a mold."""
    for e in d.get('els', []): ranked(e, N)
    for x in d.get('rest', []):
        if x['rt'] == 'RANGE': x['lo'], x['hi'] = rank(N, x['lo']), rank(N, x['hi'])
        elif x['rt'] == 'NUMERIC': x['n'] = rank(N, x['n'])
        elif x['rt'] in ('MIN', 'MAX'): x['n'] = int(float(x['n']))
    return d

def plain(v):
    """Text that is not UTF-8 in a form that can be taken apart and put together (each odd byte a character of its own)."""
    if isinstance(v, str):
        if not v.startswith('hex:'): return v
        t = bytes.fromhex(v[4:]).decode('utf-8', 'surrogateescape')
        return ''.join(chr(ord(ch) - 0xdc00 + 0xe000) if 0xdc80 <= ord(ch) < 0xdd00 else ch for ch in t)
    if isinstance(v, dict): return {k: plain(x) for k, x in v.items()}
    if isinstance(v, list): return [plain(x) for x in v]
    return v

def doc_rec(d, N):
    return {'k': 'doc', 'fmt': d['fmt'], 'parse': True, 'ver': version_rec(d['ver'], N), 'body': tree(d['body'], N) if d['body'] else MISSING}
def written(c, o):
    """The text of a JSON document that was written, taken apart."""
    if c['op'] not in ('ser', 'cwrite') or c.get('fmt') != 'json' or o['st'] != 'OK' and not c.get('fault') or 'text' not in o: return None
    try: return parse_json(o['text'])
    except ValueError: return {'k': 'object', 'kids': []}
def encode(log, extra=None, gather=None):
    log = [({k: v if k in ('text', '_doc', '_arc', '_trees') else plain(v) for k, v in c.items()}, {k: v if k in ('text', 'texts', '_look') else plain(v) for k, v in o.items()}) for c, o in log]
    N = enc.Names(); names = set(); trees = {}
    def named(e):
        if isinstance(e, dict):
            if isinstance(e.get('name'), str): names.add(e['name'])
            for v in e.values(): named(v)
        elif isinstance(e, list):
            for v in e: named(v)
    for i, (c, o) in enumerate(log):
        enc.collect(c, N); enc.collect(o, N); named(c); named(o)
        if c.get('t') == 'ANY' or c['op'] in ('updres', 'adddeftext'): enc.collect_parsed(c['v'], N)
        if c.get('_doc'):
            walk_tree(c['_doc']['body'], N, names); v = c['_doc']['ver']
            if v and v['k'] == 'string' and parse_version(v['v']): N.vers.add(parse_version(v['v']))
        if gather: gather(c, o, N, names)
        w = written(c, o)
        if w is not None:
            if w['k'] != 'object': w = {'k': 'object', 'kids': []}
            trees[i] = w; walk_tree(w, N, names)
            v = child(trees[i], 'version')
            if v and v['k'] == 'string' and parse_version(v['v']): N.vers.add(parse_version(v['v']))
    N.seal()
    order = N.order = sorted(names, key=lambda s: s.encode('utf-8', 'surrogatepass'))
    out = []
    for i, (c, o) in enumerate(log):
        op = c['op']
        C_ = enc.command({k: v for k, v in c.items() if k != 'text'}, N)
        A = enc.answer({k: v for k, v in o.items() if k != 'text'} if op in ('ser', 'mser', 'cwrite') else o, N)
        if op == 'docput':
            d = c.get('_doc')
            C_['doc'] = {'k': 'raw'} if not d else doc_rec(d, N)
        elif op in ('ser', 'cwrite'):
            if i in trees:
                t = trees[i]; body = child(t, 'config') or MISSING
                C_['tree'] = tree(body, N) if body is not MISSING else MISSING
                A['doc'] = shape(body) if body is not MISSING else MISSING
                A['ver'] = version_rec(child(t, 'version'), N)['v']
            C_['order'] = order
        elif op in ('unser', 'cread'):
            C_['seen'] = {'st': o['st'], 'deep': bool(o.get('deep')), 'cfg': bool(o.get('cfg')), 'd': seen_cfg(o['d'], N) if o.get('d') else 0}
        elif op in ('munser', 'mread'):
            C_['seen'] = {'st': o['st'], 'deep': bool(o.get('deep')), 'mold': bool(o.get('mold')), 'd': seen_mold(o['d'], N) if o.get('d') else 0}
        if op in ('munser', 'mdump', 'mread') and isinstance(A.get('d'), dict): ranked(A['d'], N)
        if extra: extra(c, o, C_, A, N)
        out.append({'c': C_, 'o': A})
    return out, N
