"""Histories of instances with plugins over a scratch directory: molds and configs written, read,
queried, listed and removed as entries, and files put in place by hand."""
import json, re
import enc, gen_config, gen_doc
import genmold as gm
from gen_config import Session
from gen_doc import DGen, S_, text_of, to_json, ordered, spice, parse_version, tree, walk_tree, version_rec

BASE = dict(gen=5, cset=8, destroyat=3, cfree=4, setver=1, dump=1, mmore=2)
WS = {
 'store': dict(BASE, cwrite=20, cread=20, creadm=5, cremove=8, cquery=10, centries=6, mwrite=10, mput=8, mread=8, mquery=6, mentries=4, fls=6, cput=8, block=1, over=2, junk=2, cycle=12, plugs=1),
 'route': dict(BASE, cwrite=14, cread=18, cremove=10, cquery=26, mquery=16, centries=14, mentries=12, mwrite=10, mput=14, mread=12, cput=12, fls=4, plugs=2, cycle=6),
 'names': dict(BASE, cwrite=14, cread=12, cremove=10, cquery=14, mquery=14, centries=6, mentries=6, mwrite=6, mput=8, mread=10, block=8, fls=4, cput=6, cycle=4),
 'torn':  dict(BASE, fcwrite=40, fmwrite=14, fcremove=10, cwrite=8, cread=14, cremove=2, cquery=6, centries=5, mentries=3, mput=6, mread=8, fls=6, cput=6, junk=1),
 'over':  dict(BASE, over=26, mread=20, cread=12, mput=8, mquery=8, mentries=8, centries=6, cquery=4, cycle=8, cwrite=6, creadm=2, overm=22),
}
gen_config.W.update(WS)
gen_config.FIRST.update({k: 0 for k in WS})
FMT = {'json': 'json', 'cfg': 'json', 'toml': 'toml', 'conf': 'toml'}
IDS = ['a', 'b', 'a/b', 'a/c', 'x/y/z', 'ns/one', 'ns/two', 'ns/two/three', 'q_1', 'a/b/c']
EDGE = 'abyz0189_'     # the ends of the alphabet entry ids are made of
ALPHABET = 'abcdefghijklmnopqrstuvwxyz0123456789_'
def ids(r):
    """The ids of one log: the common ones and a few spelled from the whole alphabet."""
    q = [''.join(r.choice(EDGE if r.random() < 0.6 else ALPHABET) for _ in range(r.choice([1, 2, 3]))) for _ in range(3)]
    return IDS + q + ['ns/' + q[0]]
ODD = ['', '/', 'a/', 'ns/', 'x/y/', 'a//b', '/a', '//ns//one', 'Upper', 'a.b', 'a-b', 'ns/\u00f8', 'a`', 'a{', 'a:', '^', 'ns/[', '@a', 'A', 'zZ', 'a~', 'a,', 'a b', '__namespace', 'ns/__namespace', 'a/../b', '.', '..', 'ns/a.o', '%s%n', 'a' * 200, 'a' * 249, 'a' * 251, 'ns/' + 'b' * 250, 'ns/' + 'b' * 252, 'b' * 256, 'c' * 300 + '/d']
def norm(p): return re.sub('/+', '/', p)
def plugins(r, profile):
    n = r.choice([1, 1, 2, 2, 3]) if profile == 'store' else r.choice([2, 3, 4]) if profile == 'route' else r.choice([1, 2])
    q = []
    for i in range(n):
        both = r.random() < 0.15
        cx = r.choice(['json', 'toml', 'cfg', 'conf', 'json'])
        no = []
        if profile in ('route', 'store') and r.random() < 0.2: no = r.sample(['cread', 'cwrite', 'cremove', 'centries', 'cquery', 'mwrite', 'mentries'], r.choice([1, 1, 2, 4]))
        p = dict(group=r.choice(['grp', 'grp', 'grp', 'aux']) if i else 'grp', io='io%d' % i, name='plug%d' % i, fmt=FMT[cx], cx=cx, mx='mold' if both else r.choice(['json', 'json', 'mold']),
                 cb='both' if both else r.choice(['c1', 'c2', 'c1/sub', 'deep/er/c3', 'c1/']), mb='both' if both else r.choice(['m1', 'm2', 'm1', 'm1/sub', 'm3//x']), no=no)
        q.append(p)
    return q

class StGen(DGen):
    def __init__(self, r, S, profile):
        DGen.__init__(self, r, S, profile)
        self.i, self.plugs, self.files, self.mtexts, self.dirs = 's1', [], {}, {}, set()
        self.ids = ids(r)
    # ------------------------------------------------------------ choosing
    def room(self): return len(self.C) < 6
    def group(self):
        g = sorted({p['group'] for p in self.plugs})
        return self.r.choice(g) if self.r.random() < 0.96 else self.r.choice(['nosuch', '', 'GRP', 'gr'])
    def members(self, g): return [p for p in self.plugs if p['group'] == g]
    def entry(self, g, odd=None):
        r = self.r
        if odd is None: odd = 0.45 if self.p == 'names' else 0.06
        if r.random() < odd:
            if r.random() < 0.12 and len(self.members(g)) == 1: return '@LEN:%d@' % r.choice([1500, 4000, 4076, 4077, 4078, 4079, 4080, 4089, 4090, 4091, 4092, 4093, 4094, 4095, 4096, 4097, 4200, 6000])
            return r.choice(ODD)
        if r.random() < 0.5:
            q = sorted(p for p, k in self.files.items())
            ids = []
            for p in self.members(g):
                for f in q:
                    for b, x in ((p['cb'], p['cx']), (p['mb'], p['mx'])):
                        b = norm(b + '/')
                        if f.startswith(b) and f.endswith('.' + x): ids.append(f[len(b):-len(x) - 1])
            ids = [e.replace('__namespace', r.choice(['one', 'two', 'zz'])).replace('.o', '') for e in ids]
            if ids: return r.choice(ids)
        return r.choice(self.ids)
    def cpath(self, p, e): return norm('%s/%s.%s' % (p['cb'], e, p['cx']))
    def mpathof(self, p, e): return norm('%s/%s.%s' % (p['mb'], e, p['mx']))
    def canput(self, path):
        """No file where a directory is needed, no directory where the file should be, and a name a file can have."""
        return path not in self.dirs and not any(path.startswith(f + '/') or f.startswith(path + '/') for f in self.files) and all(0 < len(x.encode()) <= 255 for x in path.split('/')) and '..' not in path.split('/') and '.' not in path.split('/')
    def raw_mold(self, g, e):
        """May the mold of this entry be one only the library knows?"""
        for p in self.members(g):
            for q in (self.mpathof(p, e), self.mpathof(p, e + '.o'), self.mpathof(p, e[:e.rfind('/') + 1] + '__namespace')):
                if self.files.get(q) == 'raw': return True
        return False
    def forget(self, path):
        """A file is gone; its directories stay."""
        self.files.pop(path, None)
        while '/' in path: path = path.rsplit('/', 1)[0]; self.dirs.add(path)
    def fput(self, what, path, **kw):
        """False when a directory is in its place."""
        if self.S('fput', path=path, **kw)['st'].startswith('HARNESS'):
            self.S.log.pop(); self.dirs.add(path); return False
        self.files[path] = what
        return True
    def own(self, d): self.files.update(d)
    # ------------------------------------------------------------ molds
    def mtext(self, m):
        if m not in self.mtexts:
            a = self.S('mser', m=m, d=self.fresh('d'), i='i1')
            self.mtexts[m] = a['text'] if a['st'] == 'OK' else None
        return self.mtexts[m]
    def putmold(self, path, m):
        t = self.mtext(m)
        if t is None or not self.canput(path): return False
        return self.fput('mold', path=path, text=t, src=m)
    def anymold(self):
        return self.r.choice(sorted(self.molds))
    def do_mput(self):
        r = self.r; p = r.choice(self.plugs); e = r.choice(self.ids)
        if r.random() < 0.35: e = e[:e.rfind('/') + 1] + '__namespace'
        self.putmold(self.mpathof(p, e), self.anymold())
    def fault(self):
        r = self.r; x = r.random()
        if x < 0.4: return dict(k='crash', n=r.randrange(1, 9))
        if x < 0.75: return dict(k='fail', n=r.randrange(1, 8), e=r.choice([5, 28, 13]))
        return dict(k='full', n=r.choice([0, 1, 10, 30, 60, 100, 200, 400, 900, 4096, 8192]))
    def target(self, m=False):
        """The entry of a disturbed call: its group, id and file."""
        r = self.r
        for _ in range(8):
            g, e = self.group(), r.choice(self.ids); ms = self.members(g)
            if not ms: continue
            p = self.mpathof(ms[0], e) if m else self.cpath(ms[0], e)
            if not m and self.mpathof(ms[0], e) not in self.files and r.random() < 0.9: continue
            if p in self.files or r.random() < 0.4: return g, e, p
    def do_fcwrite(self):
        c = self.config(); w = self.target()
        if c is None or c in self.foreign or not w: return
        g, e, p = w
        a = self.S('cwrite', i=self.i, g=g, e=e, c=c, fmt=self.members(g)[0]['fmt'], _path=p, fault=self.fault())
        self.now(p, 'doc', a); self.after(g, e)
    def do_fmwrite(self):
        w = self.target(True)
        if not w: return
        g, e, p = w
        if '.' in e or e.endswith('/'): return
        a = self.S('mwrite', i=self.i, g=g, e=e, m=self.anymold(), _path=p, fault=self.fault())
        self.now(p, 'mold', a); self.after(g, e)
    def do_fcremove(self):
        w = self.target()
        if not w: return
        g, e, p = w
        a = self.S('cremove', i=self.i, g=g, e=e, _path=p, fault=self.fault())
        if not a.get('kept'): self.forget(p)
        self.after(g, e)
    def now(self, p, what, a):
        if a['st'] == 'OK' or a['st'] in ('CRASHED', 'DONE') and not a.get('kept'): self.files[p] = what
        elif p not in self.files:      # directories may have been made for it
            q = p
            while '/' in q: q = q.rsplit('/', 1)[0]; self.dirs.add(q)
    def after(self, g, e):
        r = self.r
        if r.random() < 0.35: self.S('fls')
        if r.random() < 0.3: self.do_cread(g, e)
        if r.random() < 0.2: self.do_centries()
    def do_mwrite(self):
        r = self.r; g = self.group(); e = self.entry(g)
        if e.endswith('/') or e.startswith('.') or '..' in e or '.' in e: e = r.choice(self.ids)
        m = self.anymold()
        if e.startswith('@LEN'): e = '@LEN:%d@' % r.choice([4096, 4097, 5000])
        elif r.random() < 0.2: e = e[:e.rfind('/') + 1] + '__namespace'
        a = self.S('mwrite', i=self.i, g=g, e=e, m=m)
        if a['st'] == 'OK' and self.members(g): self.files[self.mpathof(self.members(g)[0], e)] = 'mold'
    def do_mread(self):
        g = self.group(); e = self.entry(g)
        if len(self.molds) > 12:
            self.do_mquery(); return
        m = self.fresh('m')
        a = self.S('mread', i=self.i, g=g, e=e, m=m, vers=[None, [1, 0], [1, 1], [2, 0], [2, 5]])
        if a['st'] == 'OK' and a.get('d'):
            q = gen_doc.mold_of(a['d'])
            if q and gm.size(q) < 80: self.molds[m] = q
    def do_mquery(self):
        g = self.group(); self.S('mquery', i=self.i, g=g, e=self.entry(g), null=self.r.random() < 0.2)
    def do_mentries(self): self.S('mentries', i=self.i, g=self.group(), e='')
    def do_centries(self): self.S('centries', i=self.i, g=self.group(), e='')
    def do_plugs(self): self.S('plugs', i=self.i)
    def do_fls(self): self.S('fls')
    # ------------------------------------------------------------ configs
    def do_cwrite(self, g=None, e=None, c=None):
        r = self.r; g = g if g is not None else self.group(); e = e if e is not None else self.entry(g)
        c = c or self.config()
        if c is None: return
        ms = self.members(g)
        if c in self.foreign: return
        a = self.S('cwrite', i=self.i, g=g, e=e, c=c, fmt=ms[0]['fmt'] if ms else 'json', _path=self.cpath(ms[0], e) if ms and not e.startswith('@') else None)
        if a['st'] == 'OK' and ms: self.files[self.cpath(ms[0], e)] = 'doc'
        elif r.random() < 0.3: self.S('fls')
        return a['st']
    def do_cread(self, g=None, e=None, m=None):
        r = self.r; g = g if g is not None else self.group(); e = e if e is not None else self.entry(g)
        if not self.room(): return self.drop()
        if m is None and self.raw_mold(g, e): m = self.anymold()
        c = self.fresh('c')
        a = self.S('cread', i=self.i, g=g, e=e, c=c, m=m)
        if a.get('cfg'):
            self.C[c] = m or 'm1'; self.tree[c] = a['d']       # (only the generator's idea of its mold)
            if 'hex:' in json.dumps(a['d']): self.foreign.add(c)
            return c
    def do_creadm(self): self.do_cread(m=self.anymold())
    def drop(self):
        c = self.config(); self.S('cfree', c=c); self.C.pop(c); self.tree.pop(c, None)
    def do_cremove(self):
        g = self.group(); e = self.entry(g)
        a = self.S('cremove', i=self.i, g=g, e=e)
        ms = self.members(g)
        if a['st'] == 'OK' and ms: self.forget(self.cpath(ms[0], e))
        if self.r.random() < 0.3: self.S('fls')
    def do_cquery(self):
        g = self.group(); self.S('cquery', i=self.i, g=g, e=self.entry(g), null=self.r.random() < 0.2)
    def do_cput(self):
        r = self.r; p = r.choice(self.plugs); e = r.choice(self.ids); m = self.anymold(); fmt = p['fmt']; path = self.cpath(p, e)
        if not self.canput(path): return
        ver = self.vernode(m); body = self.body(self.molds[m]['els'], fmt == 'toml')
        if fmt == 'toml': body = ordered(body)
        self.fput('doc', path=path, text=text_of(fmt, ver, body, r), _doc=dict(fmt=fmt, ver=ver, body=body))
    def do_junk(self):
        """A file that is no document of its kind."""
        r = self.r; p = r.choice(self.plugs); e = r.choice(self.ids)
        x = r.random()
        if x < 0.35:
            path = self.cpath(p, e); t, k = (r.choice(['{', '', '{"version": "1.0"', '[1']) if p['fmt'] == 'json' else r.choice(['a = ', '[', '= 1'])), 'junk'
        elif x < 0.6:
            path = self.mpathof(p, e if r.random() < 0.6 else e[:e.rfind('/') + 1] + '__namespace'); t, k = r.choice(['{', '', 'x', '[1']), 'junk'
        elif x < 0.8: path = self.mpathof(p, e); t, k = r.choice(['{}', '{"mold": null}', '[]', '3']), 'badmold'
        else:
            path = self.mpathof(p, e); k = 'raw'; t = self.mtext(self.anymold())
            if t is None: return
            t = gen_doc.mangle(r, t)
            if any(0xd800 <= ord(ch) < 0xe000 for ch in t): return
        if not self.canput(path): return
        if not self.fput(k, path=path, text=t, kind=k): return
        if k == 'raw':
            g = p['group']; m = self.fresh('m')
            a = self.S('mread', i=self.i, g=g, e=e, m=m, vers=[None, [1, 0], [2, 5]])
            if a.get('d') and gen_doc.big_limit(a['d']):
                self.S.log.pop()
                self.S('fdel', path=path); self.forget(path)
    def do_block(self):
        """A plain file where a directory would have to be, or away with one."""
        r = self.r
        q = [f for f, k in self.files.items() if k == 'block']
        if q and r.random() < 0.6:
            f = r.choice(sorted(q)); self.S('fdel', path=f); self.forget(f); return
        p = r.choice(self.plugs); b = r.choice([p['cb'], p['mb']])
        path = norm(b + '/' + r.choice(['a', 'ns', 'x', 'x/y', 'nsx'])) if r.random() < 0.8 else norm(b).rstrip('/')
        if not self.canput(path) or path in self.files: return
        self.fput('block', path=path, text='x', kind='raw')
    def do_cycle(self):
        """Mold in place, config written, read back, changed, written again, removed: as applications do."""
        r = self.r; g = self.plugs[0]['group']; e = r.choice(self.ids)
        p = self.members(g)[0]; m = self.anymold()
        if r.random() < 0.7 or self.mpathof(p, e) not in self.files:
            if r.random() < 0.6: self.putmold(self.mpathof(p, e), m)
            else: self.putmold(self.mpathof(p, e[:e.rfind('/') + 1] + '__namespace'), m)
        if not self.room(): self.drop()
        c = self.fresh('c'); a = self.S('gen', m=m, ver=self.version(m), c=c)
        if a['st'] != 'OK': return
        self.C[c] = m; self.refresh(c)
        if r.random() < 0.6: self.do_cset()
        if self.do_cwrite(g, e, c) == 'OK':
            c2 = self.do_cread(g, e, m if r.random() < 0.2 else None)
            if c2 and r.random() < 0.5: self.S('compare', x=c, y=c2, norep=True)
            if r.random() < 0.4: self.S('cremove', i=self.i, g=g, e=e) ; self.S('fls'); self.S('cquery', i=self.i, g=g, e=e, null=False)
            if r.random() < 0.3: self.S('centries', i=self.i, g=g, e='')
        if c in self.C and r.random() < 0.6: self.S('cfree', c=c); self.C.pop(c); self.tree.pop(c, None)
    # ------------------------------------------------------------ overrides
    def override(self, m):
        r = self.r; mold = self.molds[m]; mv = gm.version(mold)
        keys = []
        def walk(e, at):
            if e['k'] == 'KEYVAL': keys.append((at + [e['name']], e))
            for x in e['els']: walk(x, at + [e['name']])
        for e in mold['els']: walk(e, [])
        vs = ['%d.%d' % tuple(v) for v in gm.VERS + [mv, [1, 0]]]
        sync = []
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            ns = r.choice(vs + ['%d.%d' % tuple(mv)] * 3) if r.random() < 0.95 else r.choice(['x', '', '9.0', '1'])
            sync.append([ns, r.choice(['1.0', '1.1', '2.0', '3.0', '1.00', '01.0'] if r.random() < 0.95 else ['x', ''])])
        ovr = {}
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            if keys and r.random() < 0.92:
                at, e = r.choice(keys)
                v = gen_doc.value_node(*self.value(e)) if r.random() < 0.93 else r.choice([S_('x'), {'k': 'int', 'v': 3}, {'k': 'real', 'v': 1.5}, {'k': 'bool', 'v': True}, {'k': 'array', 'items': []}, {'k': 'object', 'kids': []}])
            else: at, v = r.choice([['nosuch'], ['nosuch', 'x'], ['%s']] + [[e['name']] for e in mold['els'] if e['k'] == 'SECTION']), {'k': 'int', 'v': 1}
            ver = r.choice([o for _, o in sync]) if sync and r.random() < 0.93 else r.choice(['1.0', '5.0', 'x'])
            ovr.setdefault('.'.join(at), []).append([ver, v])
        return sync, ovr
    def do_over(self):
        r = self.r; p = r.choice(self.plugs); e = r.choice(self.ids); m = self.anymold()
        path = self.mpathof(p, e + '.o')
        if not self.canput(path): return
        sync, ovr = self.override(m)
        x = r.random(); shape = 'OK'
        def ent(q): return {'k': 'object', 'kids': [['version', S_(q[0])], ['value', q[1]]]}
        sy = {'k': 'array', 'items': [{'k': 'object', 'kids': [['namespace', S_(a)], ['override', S_(b)]]} for a, b in sync]}
        ov = {'k': 'object', 'kids': [[n, ent(q[0]) if len(q) == 1 and r.random() < 0.7 else {'k': 'array', 'items': [ent(y) for y in q]}] for n, q in ovr.items()]}
        kids = [['sync', sy], ['override', ov]]; none = False; parse = True
        if x < 0.10:
            shape = 'bad'; y = r.randrange(9)
            bad = r.choice([{'k': 'null'}, {'k': 'int', 'v': 3}])
            if y == 0: kids[0][1] = r.choice([S_('x'), {'k': 'int', 'v': 3}, {'k': 'object', 'kids': []}])
            elif y == 1: kids[1][1] = r.choice([S_('x'), {'k': 'int', 'v': 3}, {'k': 'array', 'items': []}])
            elif y == 2: sy['items'].append({'k': 'object', 'kids': [['namespace', S_('1.0')]]})
            elif y == 3: sy['items'].append({'k': 'object', 'kids': [['override', S_('1.0')]]})
            elif y == 4: sy['items'].append({'k': 'object', 'kids': [['namespace', bad], ['override', S_('1.0')]]})
            elif y == 5: sy['items'].append(r.choice([S_('x'), {'k': 'int', 'v': 1}, {'k': 'array', 'items': []}, {'k': 'null'}]))
            elif y == 6: ov['kids'].append(['zz', {'k': 'object', 'kids': [['value', S_('x')]]}])
            elif y == 7: ov['kids'].append(['zz', {'k': 'object', 'kids': [['version', S_(sync[0][1] if sync else '1.0')], ['value', {'k': 'null'}]]}])
            else: ov['kids'].append(['zz', r.choice([S_('x'), {'k': 'int', 'v': 1}, {'k': 'null'}, {'k': 'array', 'items': [{'k': 'int', 'v': 1}]}])])
        elif x < 0.13: kids, none = [], True
        elif x < 0.15: kids = [['other', S_('x')]]; none = True
        elif x < 0.17: kids = kids[:1]; ovr = {}
        elif x < 0.19:
            kids = kids[1:]; sync = []
        text = to_json({'k': 'object', 'kids': kids}, r)
        if x > 0.97: text, shape = r.choice(['[]', '3', '"x"', 'null', '[1]']), 'root'
        if x > 0.985: text, parse = r.choice(['', '{', 'x']), False
        self.fput('over', path=path, text=text, kind='over', _over=dict(parse=parse, none=none, shape=shape, sync=sync, ovr=ovr if shape == 'OK' else {}))
        return p, e, m
    def do_overm(self):
        """An override over a mold it is about, read at once."""
        q = self.do_over()
        if not q: return
        p, e, m = q; r = self.r
        if r.random() < 0.7: self.putmold(self.mpathof(p, e[:e.rfind('/') + 1] + '__namespace' if r.random() < 0.8 else e), m)
        g = p['group']; m2 = self.fresh('m')
        if len(self.molds) < 12:
            a = self.S('mread', i=self.i, g=g, e=e, m=m2, vers=[None, [1, 0], [1, 1], [2, 0], [2, 5]])
            if a['st'] == 'OK' and a.get('d'):
                q = gen_doc.mold_of(a['d'])
                if q and gm.size(q) < 80:
                    self.molds[m2] = q
                    if r.random() < 0.4: self.do_genof(m2)
        if r.random() < 0.3: self.S('mquery', i=self.i, g=g, e=e, null=False)

def scenario(r, drv, profile, steps):
    S = Session(drv); g = StGen(r, S, profile)
    S('reset'); S('iblank', i='i1')
    g.plugs = plugins(r, profile)
    if S('inst', i='s1', plugs=g.plugs)['st'] != 'OK': return S.log
    for i in range(r.choice([1, 2, 2, 3])):
        m = gm.mold(r, depth=r.choice([0, 1, 1, 2])); g.molds['m%d' % (i + 1)] = m
        if profile == 'over' and r.random() < 0.7:
            for e in gm.all_elements(m):
                e['defs'] = [d for d in e['defs'] if d['intro'] <= [2, 0]] or e['defs'][:1]
        if S('mold', m='m%d' % (i + 1), mold=m)['st'] != 'OK': return S.log
    g.n += 3; g.do_gen()
    for _ in range(3): g.do_mput()
    for i in range(steps):
        g.step()
        if S.dead: break
    if not S.dead:
        S('fls'); g.finish()
    return S.log

# ---------------------------------------------------------------- encoding
def textver(t, N):
    p = parse_version(t)
    return {'k': 'ok' if p else 'bad', 'v': N.v(p) if p else 0, 's': t}
def over_rec(o, N):
    flat = [(n, q) for n in sorted(o['ovr'], key=lambda s: s.encode()) for q in o['ovr'][n]]
    return {'k': 'over', 'parse': o['parse'], 'none': o['none'], 'shape': o['shape'],
            'sync': [{'ns': textver(a, N), 'ov': textver(b, N)} for a, b in o['sync']],
            'ovr': [{'path': n.split('.'), 'ver': textver(q[0], N), 'v': tree(q[1], N)} for n, q in flat]}
def gather(c, o, N, names):
    o = c.get('_over')
    if o:
        for q in o['sync']:
            for t in q:
                if parse_version(t): N.vers.add(parse_version(t))
        for n in o['ovr']:
            for ver, v in o['ovr'][n]:
                walk_tree(v, N, names)
                if parse_version(ver): N.vers.add(parse_version(ver))
def extra(c, o, C_, A, N):
    op = c['op']
    if op == 'fput':
        C_.pop('text', None)
        if c.get('_over'): C_['doc'] = over_rec(c['_over'], N)
        elif c.get('kind'): C_['doc'] = {'k': c['kind']}
        elif c.get('_doc'): C_['doc'] = gen_doc.doc_rec(c['_doc'], N)
    if 'e' in c and isinstance(c['e'], str):
        C_['len'] = 0
        if c['e'].startswith('@LEN:'): C_['len'] = int(c['e'][5:].rstrip('@')); C_['e'] = 'a'
    if c.get('fault') and op in ('cwrite', 'mwrite', 'cremove'):
        C_['hit'] = bool(o.get('hit')); C_['kept'] = bool(o.get('kept')); C_['seenst'] = o['st']
    if op in ('cquery', 'mquery'): C_['null'] = bool(c.get('null'))
def encode(log): return gen_doc.encode(log, extra=extra, gather=gather)
