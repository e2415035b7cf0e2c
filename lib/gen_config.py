"""Seeded histories of public calls on configs. The generator only chooses calls (using the answers
to know which handles exist); what the answers should be is the specification's business."""
import copy
import enc
import genmold as gm

class Session:
    """Records what was asked and answered."""
    def __init__(self, drv):
        self.drv, self.log, self.dead = drv, [], False
    def __call__(self, op, **kw):
        c = dict(op=op, **{k: v for k, v in kw.items() if v is not None})
        if self.dead: return {'st': 'DEAD'}
        a = self.drv.safe(c)
        self.log.append((c, a))
        if a['st'].startswith('CRASH '): self.dead = True
        return a

WRITES = {'cset', 'destroy', 'fin', 'finkeep', 'setv', 'setname', 'genroot', 'setdef', 'begin', 'fatal', 'put'}
W = {  # weights of the calls, per profile
 'all':    dict(mfree=0.4, getmold=1, cset=14, cget=4, query=6, queryh=3, find=3, findh=3, finds=3, elems=2, begin=10, setname=12, setv=12, settype=1, fin=14, finkeep=4,
                hold=6, put=6, destroy=5, destroyat=5, valid=5, dump=5, ctxvalid=2, ctxtype=1, vtype=1, fatal=1, setver=2, getver=1, rootname=4,
                genroot=2, setdef=4, getdef=3, limits=4, getname=2, getv=4, gettype=2, getdoc=2, rcoll=2, defs=2, kelems=2, kpush=3, knew=1, knext=5, ksize=2, kreset=1, kfree=1, gen=1, intro=1),
 'query':  dict(mfree=0.4, getmold=0.5, cset=40, cget=14, query=16, find=4, finds=4, destroyat=12, valid=3, rootname=6, findh=6, queryh=4, put=4, dump=6, limits=2, setver=2),
 'value':  dict(mfree=0.4, getmold=0.5, cset=25, setv=30, getv=18, cget=8, gettype=2, findh=12, put=3, setdef=4, getdef=3, dump=4, valid=3, settype=1, setver=3),
 'limit':  dict(begin=22, setname=30, setv=18, fin=30, finkeep=4, destroyat=14, cset=12, limits=8, valid=4, dump=5, destroy=2, setdef=5, put=2, genroot=2, setver=3),
 'build':  dict(mfree=0.4, getmold=0.5, begin=24, setname=30, setv=22, fin=26, finkeep=6, valid=6, ctxvalid=6, dump=4, destroy=4, fatal=2, setdef=4, genroot=4, hold=2, cset=4, destroyat=4, limits=2, setver=1, getv=4, setver0=1, rootname=1),
 'refs':   dict(mfree=0.4, getmold=1, begin=12, setname=14, setv=6, fin=14, finkeep=8, hold=14, put=14, destroy=10, destroyat=8, findh=8, dump=3, valid=1, rootname=3, getname=4, getv=4,
                kpush=8, knew=3, knext=10, ksize=5, kreset=3, kfree=3, kelems=4, cfree=2, gen=2, cset=3, elems=2, ctxvalid=2, ctxtype=2, vtype=2, getver=1, query=1, limits=1, setname2=1),
 'coll':   dict(hold=10, findh=8, kpush=16, knew=4, knext=24, ksize=10, kreset=6, kfree=4, kelems=8, destroyat=9, destroy=4, put=8, cset=6, begin=3, setname=3, fin=3, dump=2),
 'gen':    dict(mfree=0.4, getmold=1, getdoc=2, rcoll=3, defs=4, gen=12, getdef=12, limits=10, valid=6, setdef=6, genroot=4, begin=8, setname=8, fin=8, dump=6, setver=4, cset=6, findh=6, put=3),
 'compare': dict(mfree=0.4, getmold=0.5, compare=40, cset=24, gen=6, destroyat=8, find=2, setv=6, valid=2, dump=2, hold=4, findh=4, put=5, destroy=1, setver=2, begin=3, setname=3, fin=3),
 'update': dict(mfree=0.4, getmold=0.5, upd=26, cset=40, gen=6, destroyat=8, setv=8, cfree=3, dump=2, setver=3, getdef=2, find=2, compare=3, cget=4, setdef=3),
 'text':   dict(setv=34, getv=16, gettext=30, getdef=6, getdeft=10, gettype=3, vtype=2, setself=6, findh=8, hold=5, put=6, dump=4, begin=6, setname=8, fin=6, setdef=3, cget=6, cset=6, destroyat=2, valid=2, settype=1),
 'many':   dict(cset=60, destroyat=8, query=14, cget=8, finds=3, find=6, rootname=5, findh=5, put=5, valid=1),
}
FIRST = {'all': 1, 'query': 0, 'value': 0, 'limit': 0, 'build': 1, 'refs': 1, 'coll': 0, 'gen': 0, 'many': 0, 'compare': 0, 'update': 0, 'text': 0}

BADQ = ['', '.', '@', 'a.', '.a', 'a@', 'a@@1', 'a@x', 'a@1x', 'a@-1', 'a@+1', 'a@0', 'a@00', 'a@ 1', 'a..b', 'a@1.', 'a@99', 'a@4294967296', 'a@2147483648', 'a@18446744073709551616', 'a@-4294967296',
        'nosuch', 'nosuch.a', 'a.nosuch', 'A', 'a b', 'a@1@2', '@1', 'a@0.', 'a%d', 'a@9999999999999999999999', 'a@0x1']
TXT = ['0', '1', 'true', 'false', 'T', 'F', '', 'x', '12', '-7', ' 42', '3.5', '1e3', '9223372036854775807', '-9223372036854775808', '99999999999999999999', '0.1', 'red', 'green', 'blue', 'zz', 'truth', 'f', '5abc', '.5']

class Gen:
    def __init__(self, r, S, profile):
        self.r, self.S, self.p = r, S, profile
        self.h = {}          # context handles -> 'con' | 'fin' | 'root'
        self.info = {}       # handle -> (kind, mold elements it can contain or mold element it is)
        self.C = {}          # config handles -> mold name
        self.K = set()
        self.n = 0
        self.tree = {}       # config -> last dump
        self.molds = {}; self.gone = set()      # molds; those whose handle was given up
    def fresh(self, p='x'):
        self.n += 1
        return '%s%d' % (p, self.n)
    # ------------------------------------------------------------ choosing things
    def config(self): return self.r.choice(sorted(self.C)) if self.C else None
    def handle(self, st=None):
        q = sorted(h for h in self.h if st is None or self.h[h] in st)
        return self.r.choice(q) if q else None
    def base(self):
        q = sorted(self.C) + sorted(self.h)
        return self.r.choice(q) if q else None
    def version(self, m):
        mv = gm.version(self.molds[m])
        if self.p == 'update' and self.r.random() < 0.8: return self.r.choice([None, [1, 0], [1, 1], [1, 2], [2, 0], [2, 5], mv])
        q = [None] + [v for v in gm.VERS] + [[0, 5], [1, 3], [4, 0], mv, mv]
        return self.r.choice(q)
    def els_of(self, b):
        if b in self.C: return self.molds[self.C[b]]['els']
        i = self.info.get(b)
        return i[1] if i and i[0] != 'KEYVAL' else []
    def mold(self): return self.r.choice(sorted(set(self.molds) - self.gone) or [None])
    def mpath(self, b, leaf=None):
        """A random path in the mold below b: [(element, index)]."""
        els, q = self.els_of(b), []
        while els:
            e = self.r.choice(els)
            sect = [x for x in els if x['k'] == 'SECTION']
            if leaf is None and sect and self.r.random() < 0.3: e = self.r.choice(sect)
            q.append((e, self.index(b, q, e)))
            if e['k'] == 'KEYVAL' or self.r.random() < 0.2: break
            els = e['els']
        return q
    def index(self, b, q, e):
        """Often an index that exists or is the next one."""
        n = self.count(b, q, e['name'])
        x = self.r.random()
        if n is None: return self.r.choice([0, 0, 0, 1, 2])
        if x < 0.45: return self.r.randrange(n) if n else 0
        if x < 0.85: return n
        if x < 0.93: return n + 1
        return self.r.choice([0, 1, 2, 5, 11])
    def count(self, b, q, name):
        d = self.tree.get(b)
        if d is None: return None
        for e, i in q:
            k = [x for x in d['els'] if x['name'] == e['name'] and 'els' in x]
            if i >= len(k): return 0
            d = k[i]
        return len([x for x in d['els'] if x['name'] == name])
    def text(self, q):
        def seg(e, i):
            s = e['name'] if isinstance(e, dict) else e
            if i == 0 and self.r.random() < 0.7: return s
            return '%s@%d' % (s, i)
        return '.'.join(seg(e, i) for e, i in q)
    def query(self, b):
        x = self.r.random()
        q = self.mpath(b)
        if not q or x < 0.06: return self.r.choice(BADQ), None
        t = self.text(q)
        if x < 0.08: t = t + self.r.choice(['.', '@', '@1', 'x', '.nosuch', '@x', ' ', '@-1'])
        elif x < 0.09 and self.p != 'many': t = 'k' * self.r.choice([255, 2047, 2048, 2049, 5000])
        return t, q[-1][0]
    def walk(self, b):
        """Steps to an existing element below b (from its last dump)."""
        d, at = self.tree.get(b), []
        if not d or not d.get('els'): return None
        while d.get('els'):
            i = self.r.randrange(len(d['els'])); e = d['els'][i]
            at.append([e['name'], len([x for x in d['els'][:i] if x['name'] == e['name']])])
            d = e
            if self.r.random() < 0.35: break
        if any(n == '(null)' or n.startswith('hex:') for n, _ in at): return None
        return at
    def mold_at(self, b, at):
        els, e = self.els_of(b), None
        for n, _ in at:
            k = [x for x in els if x['name'] == n]
            if not k: return None
            e = k[0]; els = e['els']
        return e
    def value(self, e, t=None):
        r = self.r
        if e is None or e['k'] != 'KEYVAL' or r.random() < 0.08: t = t or r.choice(gm.TYPES)
        else: t = t or (e['t'] if r.random() < 0.88 else r.choice(gm.TYPES))
        if e and e['k'] == 'KEYVAL' and t == e['t']:
            x = r.random()
            lo = [q for q in e['rest'] if q['rt'] in ('RANGE', 'NUMERIC')]
            if lo and x < 0.6:
                q = r.choice(lo)
                b = float(r.choice([q['lo'], q['hi']]) if q['rt'] == 'RANGE' else q['n'])
                if t == 'INTEGER':
                    return t, str(int(b) + r.choice([-1, 0, 0, 1]))
                return t, '%.17g' % (b + r.choice([-0.5, 0, 0, 0, 0.5, 1e-9, -1e-9]))
            if x < 0.75 and e['defs']: return t, r.choice(e['defs'])['v']
        if self.p in ('compare', 'update', 'text') and t == 'STRING' and r.random() < 0.3:      # lines and answers of every length around the buffers they are composed in
            return t, ('%s%d' % (r.choice('xyz'), r.randrange(10)) * 200)[:r.choice([r.randrange(20, 70), r.randrange(90, 140), r.randrange(20, 300)])]
        v = gm.rvalue(r, t, r.random() < 0.5)
        return t, v if self.p != 'text' or v.isascii() else 'plain'
    def refresh(self, c):
        if c not in self.C: return
        a = self.S('dump', c=c, flags=(self.r.random() < 0.4) or None)
        if a['st'] == 'OK': self.tree[c] = a['d']
        else: self.tree.pop(c, None)
    # ------------------------------------------------------------ the calls
    def bind(self, h, st, k=None, e=None):
        self.h[h] = st; self.info[h] = (k, e['els'] if e and k == 'SECTION' else e)
    def bindroot(self, h, m):
        self.h[h] = 'con'; self.info[h] = ('CONFIG', self.molds[m]['els'])
    def step(self):
        r, S = self.r, self.S
        w = W[self.p]
        op = r.choices(list(w), list(w.values()))[0]
        getattr(self, 'do_' + op)()
    def touched(self):
        for c in sorted(self.C):
            if self.r.random() < 0.6: self.refresh(c)
    def do_gen(self):
        if len(self.C) > 3: return
        m = self.mold(); c = self.fresh('c')
        if not m: return
        a = self.S('gen', m=m, ver=self.version(m), c=c)
        if a['st'] == 'OK': self.C[c] = m; self.refresh(c)
    def do_mfree(self):
        m = self.mold()
        if m and m in self.C.values(): self.S('mfree', m=m); self.gone.add(m)
    def do_getmold(self):
        c, m = self.config(), self.mold()
        if c and m: self.S('getmold', c=c, m=m)
    def do_cbegin(self):
        m = self.mold(); h = self.fresh()
        if not m: return
        self.S('cbegin', m=m, **{'as': h}); self.bindroot(h, m)
    def do_cfree(self):
        c = self.config()
        if c and len(self.C) > 1: self.S('cfree', c=c); del self.C[c]; self.tree.pop(c, None)
    def do_cfin(self):
        q = sorted(h for h in self.h if self.h[h] == 'con' and self.info[h][0] == 'CONFIG')
        if not q: return
        h = self.r.choice(q); c = self.fresh('c')
        m = [m for m in self.molds if self.molds[m]['els'] is self.info[h][1]][0]
        a = self.S('cfin', x=h, c=c)
        if a.get('cfg'): self.C[c] = m; self.h.pop(h, None); self.refresh(c)
    def do_cset(self):
        b = self.config() if self.r.random() < 0.9 else self.base()
        if not b: return
        q, e = self.query(b); t, v = self.value(e)
        a = self.S('cset', x=b, q=q, t=t, v=v, ctx=True if b in self.C and self.r.random() < 0.2 else None)
        if self.r.random() < 0.7 or a['st'] != 'OK': self.touched()
    def do_cget(self):
        b = self.config() if self.r.random() < 0.9 else self.base()
        if not b: return
        q, e = self.query(b); t, _ = self.value(e)
        self.S('cget', x=b, q=q, t=t)
    def do_query(self):
        b = self.config() if self.r.random() < 0.85 else self.base()
        if b: self.S('query', x=b, q=self.query(b)[0])
    def do_queryh(self):
        b = self.config()
        if not b or len(self.h) > 12: return
        q, e = self.query(b); h = self.fresh()
        a = self.S('query', x=b, q=q, **{'as': h})
        if a['st'] == 'OK': self.bind(h, 'fin', a['k'], e)
    def do_find(self):
        b = self.base()
        if not b: return
        q = self.mpath(b)
        n, i = (q[0][0]['name'], q[0][1]) if q else ('a', 0)
        if self.r.random() < 0.1: n = self.r.choice(['', 'nosuch', 'a', 'A'])
        self.S('find', x=b, name=n, idx=i)
    def do_findh(self):
        b = self.config()
        if not b or len(self.h) > 12: return
        q = self.mpath(b)
        if not q: return
        e, i = q[0]; h = self.fresh()
        a = self.S('find', x=b, name=e['name'], idx=i, **{'as': h})
        if a['st'] == 'OK': self.bind(h, 'fin', e['k'], e)
    def do_finds(self):
        b = self.base()
        if not b: return
        q = self.els_of(b)
        n = self.r.choice(q)['name'] if q and self.r.random() < 0.9 else self.r.choice(['nosuch', '', 'a'])
        self.S('finds', x=b, name=n)
    def do_elems(self):
        b = self.base()
        if b: self.S('elems', x=b)
    def do_begin(self):
        if len(self.h) > 14: return
        b = self.base()
        if not b: return
        els = self.els_of(b)
        k = self.r.choice(els)['k'] if els and self.r.random() < 0.85 else self.r.choice(['KEYVAL', 'SECTION'])
        if self.r.random() < 0.03: k = self.r.choice(['DEFAULT', 'RESTRICTION', 'CONFIG', 'MOLD'] + (['DOCUMENTATION'] if b in self.C else []))
        h = self.fresh()
        at = None
        if self.r.random() < 0.25 and k in ('KEYVAL', 'SECTION'):
            at = self.walk(b)
            if at is not None:
                e = self.mold_at(b, at)
                els = e['els'] if e and e['k'] == 'SECTION' else []
        a = self.S('begin', x=b, k=k, at=at, **{'as': h})
        if a['st'] == 'OK':
            self.h[h] = 'con'
            self.info[h] = (k, None) if k == 'KEYVAL' else (k, [])
            self.parent = getattr(self, 'parent', {}); self.parent[h] = els
    def do_setname(self):
        h = self.handle(('con',)) if self.r.random() < 0.9 else self.handle()
        if not h: return
        els = getattr(self, 'parent', {}).get(h) or []
        k = self.info[h][0]
        cand = [e for e in els if e['k'] == k]
        x = self.r.random()
        if cand and x < 0.86:
            e = self.r.choice(cand); n = e['name']
        else:
            n = self.r.choice(['nosuch', 'a', 'b', 'BadName', 'sp ace', '', 'dot.x', 'x@1', 'n' * 300] + [e['name'] for e in els])
            e = next((e for e in els if e['name'] == n and e['k'] == k), None)
        self.S('setname', x=h, name=n)
        if self.h[h] == 'con' and e:
            self.info[h] = (k, e['els'] if k == 'SECTION' else e)
    do_setname2 = do_setname
    def target(self):
        """A context, by handle or by place."""
        if self.r.random() < 0.5 or not self.C:
            h = self.handle()
            return (h, None, self.info[h][1] if h and self.info[h][0] == 'KEYVAL' else None) if h else (None, None, None)
        c = self.config(); at = self.walk(c)
        return (c, at, self.mold_at(c, at)) if at else (c, None, None)
    def do_setv(self):
        b, at, e = self.target()
        if not b: return
        if self.r.random() < 0.12: t, v = 'ANY', self.r.choice(TXT)
        else: t, v = self.value(e if isinstance(e, dict) else None)
        n = None
        if self.p == 'text' and self.r.random() < 0.5: t, v, n = self.textual(t, v)
        self.S('setv', x=b, at=at, t=t, v=v, n=n)
        if self.r.random() < 0.3: self.touched()
    def textual(self, t, v):
        """Boundary values, and texts of every length, handed over with an explicit length."""
        r = self.r
        if t == 'ANY':
            k = r.choice(gm.TYPES)
            w = self.textual(k, gm.rvalue(r, k))[1]
            v = enc.rendered(k, w)
            return t, v, None if r.random() < 0.7 else r.randrange(len(v) + 1)
        if t == 'INTEGER': return t, str(r.choice([-2**63, 2**63 - 1, -2**63 + 1, 2**31, -2**31 - 1, 2**32, 2**53 + 1, r.randrange(-2**63, 2**63), r.randrange(-100, 100)])), None
        if t == 'FLOAT': return t, '%.17g' % r.choice([1e308, -1e308, 5e-324, -0.0, 1e22, 1e-7, 4.9e-7, 5e-7, 5.1e-7, 0.1, 1/3, r.random(), r.uniform(-1e6, 1e6), r.uniform(-1e18, 1e18), 2.0**r.randrange(-80, 80)]), None
        if t in ('STRING', 'ENUM'):
            if t == 'STRING' or r.random() < 0.3: v = ''.join(r.choice('abcXYZ 0189_-%$') for _ in range(r.choice([0, 1, 2, 3, 4, 5, 8, 15, 16, 17, 31, 32, 33, 255, 256, 1000, 4000])))
            return t, v, None if r.random() < 0.5 else r.randrange(len(v) + 1)
        return t, v, None
    def do_getv(self):
        b, at, e = self.target()
        if b: self.S('getv', x=b, at=at, t=self.value(e if isinstance(e, dict) else None)[0])
    def size_for(self, b, at):
        """Buffer sizes around what the text needs (known from the last dump, or guessed)."""
        n = self.r.choice([0, 1, 4, 5, 8])
        if at is not None and b in self.tree:
            d = self.tree[b]
            for nm, i in at:
                k = [x for x in (d or {}).get('els', []) if x['name'] == nm]
                d = k[i] if i < len(k) else None
            if d and isinstance(d.get('v'), str):
                try: n = len(enc.rendered(d['t'], d['v']))
                except Exception: n = len(d['v'])
        return self.r.choice([-1, 0, 1, 2, 3, n - 1, n, n, n, n + 1, n + 1, n + 2, 4096, 70000])
    def do_gettext(self):
        b, at, e = self.target()
        if b: self.S('gettext', x=b, at=at, size=self.size_for(b, at))
    def do_getdeft(self):
        b, at, e = self.target()
        if not b: return
        n = self.r.choice([4, 5, 8])
        if isinstance(e, dict) and e['k'] == 'KEYVAL': n = len(enc.rendered(e['t'], self.r.choice(e['defs'])['v']))
        self.S('getdef', x=b, at=at, ver=self.r.choice([None] + gm.VERS), size=self.r.choice([-1, 0, 1, 2, n - 1, n, n, n + 1, n + 1, 4096]))
    def do_setself(self):
        b, at, e = self.target()
        if b: self.S('setself', x=b, at=at, t=e['t'] if isinstance(e, dict) and e.get('t') in ('STRING', 'ENUM') and self.r.random() < 0.9 else self.r.choice(['STRING', 'ENUM']), off=self.r.choice([0, 0, 1, 2, 3, 10, 100]))
    def do_gettype(self):
        b, at, e = self.target()
        if b: self.S('gettype', x=b, at=at)
    def do_settype(self):
        b, at, e = self.target()
        if b: self.S('settype', x=b, at=at, t=self.r.choice(gm.TYPES))
    def do_getname(self):
        b, at, e = self.target()
        if b: self.S('getname', x=b, at=at)
    def do_fin(self):
        h = self.handle(('con',)) if self.r.random() < 0.93 else self.handle()
        if not h: return
        if self.info[h][0] == 'CONFIG':
            if self.r.random() < 0.7: return self.do_cfin()
        a = self.S('fin', x=h)
        if not a.get('kept', True): self.h.pop(h, None)
        elif a['st'] == 'INVALID_CONTEXT': self.h[h] = 'fin'
        self.touched()
    def do_finkeep(self):
        h = self.handle(('con',))
        if not h: return
        a = self.S('finkeep', x=h)
        if a['st'] in ('OK', 'INVALID_CONTEXT'): self.h[h] = 'fin'
        self.touched()
    def do_hold(self):
        if len(self.h) > 12: return
        c = self.config()
        at = self.walk(c) if c else None
        if not at: return
        h = self.fresh()
        a = self.S('hold', x=c, at=at, **{'as': h})
        if a['st'] == 'OK':
            e = self.mold_at(c, at); self.bind(h, 'fin', e['k'] if e else None, e)
    def do_put(self):
        h = self.handle(('fin', 'root'))
        if not h: return
        self.S('put', x=h); self.h.pop(h)
    def do_destroy(self):
        h = self.handle(('con', 'fin'))
        if not h: return
        if self.h[h] == 'con' and self.info[h][0] == 'CONFIG' and self.r.random() < 0.6: return
        self.S('destroy', x=h)
        self.h.pop(h, None); self.touched()
    def do_destroyat(self):
        c = self.config(); at = self.walk(c) if c else None
        if not at: return
        self.S('destroy', x=c, at=at); self.touched()
    def do_valid(self):
        c = self.config()
        if c: self.S('valid', c=c)
    def do_dump(self):
        c = self.config()
        if self.r.random() < 0.8 or not self.h:
            if c: self.refresh(c)
        else:
            h = self.handle(); self.S('dump', c=h)
    def do_ctxvalid(self):
        b, at, e = self.target()
        if b: self.S('ctxvalid', x=b, at=at)
    def do_ctxtype(self):
        b, at, e = self.target()
        if b: self.S('ctxtype', x=b, at=at)
    def do_vtype(self):
        b, at, e = self.target()
        if b: self.S('vtype', x=b, at=at)
    def do_getdoc(self):
        b, at, e = self.target()
        if b and self.r.random() < 0.2: at = None
        if b: self.S('getdoc', x=b, at=at, ver=self.r.choice([None] + gm.VERS + [[1, 3], [4, 0]]))
    def do_rcoll(self):
        b, at, e = self.target()
        if b: self.S('rcoll', x=b, at=at)
    def do_defs(self):
        b, at, e = self.target()
        if b: self.S('defs', x=b, at=at)
    def do_fatal(self):
        b, at, e = self.target()
        if b and (b in self.h): self.S('fatal', x=b)
    def do_setver(self):
        c = self.config()
        if not c: return
        v = self.version(self.C[c])
        if v: self.S('setver', x=c, ver=v)
    def do_setver0(self):
        q = sorted(h for h in self.h if self.info[h][0] == 'CONFIG')
        if q: self.S('setver', x=self.r.choice(q), ver=list(self.r.choice(gm.VERS)))
    def do_getver(self):
        b = self.base()
        if b: self.S('getver', x=b)
    def do_intro(self):
        b, at, e = self.target()
        if b: self.S(self.r.choice(['intro', 'depr']), x=b, at=at, ver=list(self.r.choice(gm.VERS)))
    def do_rootname(self):
        if self.r.random() < 0.7 and self.C:
            c = self.config(); at = self.walk(c)
            if at: self.S('rootname', x=c, at=at)
        else:
            h = self.handle(None)
            if h: self.S('rootname', x=h)
    def do_genroot(self):
        h = self.handle() if self.r.random() < 0.8 else self.base()
        if h: self.S('genroot', x=h); self.touched()
    def do_setdef(self):
        b, at, e = self.target()
        if b: self.S('setdef', x=b, at=at, ver=self.r.choice([None] + gm.VERS + [[1, 3], [0, 1]]))
    def do_getdef(self):
        b, at, e = self.target()
        if b: self.S('getdef', x=b, at=at, ver=self.r.choice([None] + gm.VERS + [[1, 3], [0, 1]]))
    def do_limits(self):
        b, at, e = self.target()
        if b: self.S('limits', x=b, at=at)
    def coll(self): return self.r.choice(sorted(self.K)) if self.K else None
    def do_knew(self):
        if len(self.K) > 3: return
        k = self.fresh('k'); self.S('knew', k=k); self.K.add(k)
    def do_kelems(self):
        if len(self.K) > 3: return
        b = self.base()
        if not b: return
        k = self.fresh('k'); n = None
        els = self.els_of(b)
        if els and self.r.random() < 0.4: n = self.r.choice(els)['name']
        if self.S('kelems', x=b, k=k, name=n)['st'] == 'OK': self.K.add(k)
    def do_kpush(self):
        k = self.coll()
        if not k: return
        b, at, e = self.target()
        if b and (b in self.h or at): self.S('kpush', k=k, x=b, at=at)
    def do_knext(self):
        k = self.coll()
        if not k: return
        h = self.fresh() if self.r.random() < 0.4 and len(self.h) < 12 else None
        a = self.S('knext', k=k, **{'as': h})
        if a.get('got') and h: self.h[h] = 'root' if a['k'] == 'CONFIG' else 'fin'; self.info[h] = (a['k'], None) if a['k'] == 'KEYVAL' else (a['k'], [])
    def do_ksize(self):
        k = self.coll()
        if k: self.S('ksize', k=k)
    def do_kreset(self):
        k = self.coll()
        if k: self.S('kreset', k=k)
    def do_kfree(self):
        k = self.coll()
        if k: self.S('kfree', k=k); self.K.discard(k)
    def do_compare(self):
        r = self.r
        if r.random() < 0.25 and len(self.molds) > 1 and self.mold():
            x, y = self.mold(), self.mold()
            at = bt = None
            if r.random() < 0.4:
                def path(m):
                    q, els = [], self.molds[m]['els']
                    while els:
                        e = r.choice(els); q.append([e['name'], 0]); els = e['els']
                        if r.random() < 0.5: break
                    return q
                at = path(x)
                els = self.molds[y]['els']; ok = True
                for n, _ in at:
                    k = [e for e in els if e['name'] == n]
                    if not k: ok = False; break
                    els = k[0]['els']
                bt = at if ok and r.random() < 0.8 else path(y)
            self.S('compare', x=x, y=y, at=at, bt=bt, norep=True if r.random() < 0.1 else None); return
        x, y = self.base(), self.base()
        if not x or not y: return
        q = sorted(self.C)
        if len(q) > 1 and r.random() < 0.6: x, y = r.sample(q, 2)
        at = bt = None
        if r.random() < 0.4:
            at = self.walk(x)
            bt = at if self.r.random() < 0.6 else self.walk(y)
            if at is not None and r.random() < 0.15 and x in self.C:      # a context against the root of its own kind
                bt = None
        if r.random() < 0.04 and self.mold(): y = self.mold(); bt = None
        self.S('compare', x=x, y=y, at=at, bt=bt, norep=True if r.random() < 0.1 else None)
    def do_upd(self):
        r, S = self.r, self.S
        c = self.config()
        if not c: return
        u = self.fresh('u')
        v = self.version(self.C[c])
        have = (self.tree.get(c) or {}).get('ver')
        if have and r.random() < 0.7:
            mv = gm.version(self.molds[self.C[c]])
            v = r.choice([x for x in gm.VERS + [mv, mv] if have < x <= mv] or [v])
        a = S('upd', c=c, u=u, ver=v)
        if not a.get('upd'): return
        st = a['st']; n = 0
        while not S.dead and n < 30:
            n += 1
            x = r.random()
            if st == 'CONFLICT' or x < 0.1:
                b = S('updconf', u=u)
                if b['st'] == 'OK':
                    y = r.random()
                    if y < 0.12: S('updcont', u=u)
                    if y > 0.95: break
                    v = r.choice([b['keyval'], b['mold'], b['mold'], b['keyval'], r.choice(TXT)])
                    if S('updres', u=u, v=v)['st'] != 'OK':
                        if r.random() < 0.3: S('updconf', u=u)
                        v = r.choice([b['mold'], b['mold'], b['keyval'], r.choice(TXT)])
                        if S('updres', u=u, v=v)['st'] != 'OK' and r.random() < 0.5: break
            if st == 'OK' and x > 0.2: break
            if x < 0.05: S('updres', u=u, v='1')
            st = S('updcont', u=u)['st']
        if r.random() < 0.2: S('dump', c=c)
        h = self.fresh('c') if r.random() < 0.85 and len(self.C) < 5 else None
        a = S('updfin', u=u, **{'as': h})
        if a.get('cfg'): self.C[h] = self.C[c]; self.refresh(h)
        self.refresh(c)
    # ------------------------------------------------------------ a whole scenario
    def finish(self):
        S = self.S
        for c in sorted(self.C): S('valid', c=c)
        for k in sorted(self.K): S('kfree', k=k)
        for h in sorted(self.h, key=lambda x: -int(x[1:])):
            if self.h[h] == 'con': S('destroy', x=h)
        for h in sorted(self.h, key=lambda x: -int(x[1:])):
            if self.h[h] != 'con': S('put', x=h)
        for c in sorted(self.C): self.refresh(c)
        for c in sorted(self.C): S('cfree', c=c)
        S('end')

def scenario(r, drv, profile, steps):
    S = Session(drv); g = Gen(r, S, profile)
    S('reset')
    kw = {}
    if profile == 'many':
        m = {'els': gm.elements(r, 1, n=2, restr=False)}
        for e in m['els']:
            e['rest'] = [x for x in e['rest'] if x['rt'] not in ('MIN', 'MAX')] + [{'rt': 'MAX', 'n': '0'}]
            e.pop('depr', None); e.pop('intro', None)
    else:
        m = gm.mold(r, depth=r.choice([0, 1, 1, 2, 2, 3]))
    if profile == 'compare' or profile in ('all', 'gen') and r.random() < 0.4: gm.docs(r, m)
    if profile == 'update': m = updatable(r)
    if profile == 'text':
        m = gm.mold(r, depth=r.choice([0, 0, 0, 1, 1, 2])); textmold(r, m)
    g.molds['m1'] = m
    if S('mold', m='m1', mold=m)['st'] != 'OK': return S.log
    if profile == 'compare' or profile in ('refs', 'coll') and r.random() < 0.3:
        m2 = gm.mold(r, depth=1) if profile != 'compare' else gm.mutate(r, m) if r.random() < 0.85 else m; g.molds['m2'] = m2
        if S('mold', m='m2', mold=m2)['st'] != 'OK': return S.log
    if FIRST[profile] and r.random() < 0.6: g.do_cbegin()
    else:
        g.do_gen()
        if not g.C: g.do_cbegin(); g.do_cfin()
    if profile == 'many': many(g, r)
    if profile == 'compare':
        for k in range(2): g.do_gen()
    for i in range(steps):
        g.step()
        if S.dead: break
    if not S.dead: g.finish()
    return S.log

def textmold(r, m):
    """Mostly unrestricted keyvals, and only ASCII (texts are measured in bytes)."""
    for e in gm.all_elements(m):
        if e['k'] != 'KEYVAL': continue
        if r.random() < 0.75:
            e['rest'] = [x for x in e['rest'] if x['rt'] in ('MIN', 'MAX')]
            if e['t'] == 'ENUM': e['rest'] += [{'rt': 'ENUM', 's': x} for x in ('red', 'green', 'blue', 'x', 'een', '')]
        for d in e['defs']:
            if not d['v'].isascii(): d['v'] = 'plain'

def many(g, r):
    """Fill one name far beyond ten entries."""
    c = sorted(g.C)[0]
    e = r.choice(g.molds['m1']['els'])
    path = []
    while e['k'] == 'SECTION':
        kv = [x for x in e['els'] if x['k'] == 'KEYVAL']
        path.append(e['name'])
        if not kv: return
        e = r.choice(kv)
        break
    n = g.count(c, [], path[0] if path else e['name']) or 0
    for i in range(n, n + r.choice([12, 13, 25, 40, 104])):
        nm = path[0] if path else e['name']
        t, v = g.value(e, e['t'])
        q = '%s@%d' % (nm, i)
        if path: q += '.' + e['name']
        g.S('cset', x=c, q=q, t=t, v=v)
    g.refresh(c)

def updatable(r):
    """A mold with many versions of everything, so that updates have something to do."""
    m = gm.mold(r, depth=r.choice([0, 1, 1, 2]))
    for e in gm.all_elements(m):
        if e['k'] == 'KEYVAL' and len(e['defs']) < 3 and r.random() < 0.7:
            for v in gm.vsubset(r, 3):
                if all(d['intro'] != v for d in e['defs']): e['defs'].append({'v': gm.rvalue(r, e['t'], False), 'intro': list(v)})
        if r.random() < 0.6: e.pop('depr', None)
        if r.random() < 0.75:          # defaults the restrictions agree with
            e['rest'] = [x for x in e['rest'] if x['rt'] in ('MIN', 'MAX')]
            if e['k'] == 'KEYVAL' and e['t'] == 'ENUM': e['rest'] += [{'rt': 'ENUM', 's': x} for x in ('red', 'green', 'blue', 'x')]
            if e['k'] == 'KEYVAL' and e['t'] in ('INTEGER', 'FLOAT') and r.random() < 0.5:
                q = [float(d['v']) for d in e['defs']]
                if max(abs(x) for x in q) < 2**53 or e['t'] == 'FLOAT': e['rest'].append({'rt': 'RANGE', 'lo': '%.17g' % min(q), 'hi': '%.17g' % max(q)})
                if r.random() < 0.5: e['rest'].append({'rt': 'RANGE', 'lo': '-1000', 'hi': '1000', 'depr': gm.rversion(r)})
    return m
