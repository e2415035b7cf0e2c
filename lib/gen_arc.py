"""Histories of archives between two stores: exported, extended, looked into, made by hand (well and
badly), imported, resolved, written; with file operations failing and the process ending."""
import json, tomllib
import enc, gen_config, gen_doc, gen_store
import genmold as gm
from gen_config import Session
from gen_doc import S_, text_of, ordered, parse_version, tree, walk_tree, version_rec, parse_json, shape, child, doc_rec, MISSING
from gen_store import StGen, norm, FMT

BASE = dict(gen=6, cset=8, destroyat=2, cfree=3, setver=1, cwrite=14, cread=6, cremove=4, mput=6, cput=5, fls=3, swap=10, badfile=1, block=1, over=1, centries=1, mmore=2, abegin=8, aentry=14, agroup=8, afin=10, aimport=10, istat=4, ires=16, ifin=7, mkd=1)
WS = {
 'export': dict(BASE, trip=5, aentry=22, agroup=12, afin=14),
 'import': dict(BASE, trip=7, session=16, aput=6, drift=8),
 'hostile': dict(BASE, aput=16, evil=26, aimport=14),
 'faults': dict(BASE, trip=3, fafin=26, fabegin=4, faentry=4, fagroup=3, faimport=5, fifin=5),
}
gen_config.W.update(WS)
gen_config.FIRST.update({k: 0 for k in WS})
IDS = ['a', 'b', 'a/b', 'x/y', 'ns/one', 'ns/two', 'q_1', 'entries', 'metadata']
OPTS = ['DO', 'UPDATE', 'FORCE', 'DISCARD', 'UPDATE_WITH_DISCARD']
ARCS = ['arc/one.disir', 'arc/two.disir', 'arc/sub/three.disir', 'arc/one', 'arc/x.tar', 'arc/.disir', 'arc/a.disir.backup', 'arc//two.disir']

def stores(r):
    groups = ['grp'] + r.sample(['aux', 'a.b', 'g-1', 'G'], r.choice([0, 1, 1, 2]))
    one, two = [], []
    for i, g in enumerate(groups):
        for j in range(r.choice([1, 1, 1, 2])):
            cx = r.choice(['json', 'toml', 'cfg', 'conf'])
            def plug(s, cx, name): return dict(group=g, io='io', name=name, fmt=FMT[cx], cx=cx, mx='json', cb='%s/c%d%d' % (s, i, j), mb='%s/m%d%d' % (s, i, j), no=[])
            name = r.choice(['plug', 'plug%d' % i])
            one.append(plug('s1', cx, name))
            y = r.random()
            two.append(plug('s2', cx if y < 0.85 else r.choice(['json', 'toml']), name if r.random() < 0.92 else 'other'))
    for q in (one, two):
        for p in q:
            if r.random() < 0.1: p['no'] = r.choice([['cread'], ['cwrite'], ['centries'], ['cquery'], ['cwrite', 'cfdwrite'], ['cread', 'cfdread'], ['mread', 'cread']])
    if r.random() < 0.1: two = two[1:] or two
    return one, two

class AGen(StGen):
    def __init__(self, r, S, profile):
        StGen.__init__(self, r, S, profile)
        self.i, self.insts, self.A, self.P, self.arcs, self.adirs = 's1', {}, {}, {}, {}, set()
    def do_swap(self):
        self.i = self.r.choice(sorted(self.insts)); self.plugs = self.insts[self.i]
    def entry(self, g, odd=None):
        e = StGen.entry(self, g, 0.0 if odd is None else odd)
        return e if e in IDS or '.' not in e and '@' not in e else self.r.choice(IDS)
    def do_mput(self):
        """The same mold for the same entry of both stores, most of the time."""
        r = self.r; g = self.group(); e = r.choice(IDS); m = self.anymold()
        if r.random() < 0.3: e = e[:e.rfind('/') + 1] + '__namespace'
        for i in sorted(self.insts):
            q = [p for p in self.insts[i] if p['group'] == g]
            if q and r.random() < 0.93: self.putmold(self.mpathof(q[0], e), m if r.random() < 0.85 else self.anymold())
    def do_cwrite(self, g=None, e=None, c=None):
        c = c or self.config()
        if c is None or self.S('valid', c=c)['st'] != 'OK': return
        return StGen.do_cwrite(self, g, e, c)
    def do_cput(self):
        r = self.r; p = r.choice(self.plugs); e = r.choice(IDS); m = self.anymold(); fmt = p['fmt']; path = self.cpath(p, e)
        if not self.canput(path): return
        d = self.document(fmt, m)
        self.fput('doc', path=path, text=d['text'], _doc=d['_doc'])
    def document(self, fmt, m):
        ver = self.vernode(m); body = self.body(self.molds[m]['els'], fmt == 'toml')
        if fmt == 'toml': body = ordered(body)
        return dict(text=text_of(fmt, ver, body, self.r), _doc=dict(fmt=fmt, ver=ver, body=body))
    def do_badfile(self):
        r = self.r; p = r.choice(self.plugs); e = r.choice(IDS)
        path, t, k = r.choice([(self.cpath(p, e), '{' if p['fmt'] == 'json' else 'a = ', 'junk'), (self.mpathof(p, e), '{', 'junk'), (self.mpathof(p, e), '{}', 'badmold')])
        if self.canput(path): self.fput(k, path=path, text=t, kind=k)
    def filled(self):
        """A store with something in it."""
        r = self.r
        for _ in range(4):
            self.do_swap()
            g = self.group(); ms = self.members(g)
            if not ms: continue
            e = r.choice(IDS); m = self.anymold(); c = self.fresh('c')
            for i in sorted(self.insts):
                q = [p for p in self.insts[i] if p['group'] == g]
                if q: self.putmold(self.mpathof(q[0], e), m)
            if self.S('gen', m=m, ver=self.version(m), c=c)['st'] != 'OK': continue
            self.C[c] = m; self.refresh(c)
            if r.random() < 0.7: self.do_cset()
            self.do_cwrite(g, e, c)
            if c in self.C and len(self.C) > 2: self.S('cfree', c=c); self.C.pop(c); self.tree.pop(c, None)
    # ------------------------------------------------------------ exporting
    def live(self): return self.r.choice(sorted(self.A)) if self.A else None
    def whole(self):
        q = sorted(a for a in self.A if not self.A[a]['torn'])
        return self.r.choice(q) if q else None
    def where(self, ext=False):
        r = self.r; x = r.random()
        if x < 0.55: p = r.choice(['arc/one.disir', 'arc/two.disir'])
        elif x < 0.94: p = r.choice(ARCS)
        elif x < 0.96: p = r.choice(['nodir/x.disir', 'arc/one.disir/x', 'arc/one.disir/y/z', 'arc/d.disir', 'arc/' + 'n' * r.choice([236, 242, 243, 249, 250, 251, 260])])
        else:
            k = r.choice(['empty', 'slash', 'slash', 'long', 'edge', 'nodir'])
            return dict(_odd=k, path={'empty': '', 'slash': p_ if (p_ := r.choice(['arc/one.disir', 'arc'])) else '', 'long': '/tmp/' + 'd' * r.choice([4078, 4079, 4085, 4096, 6000]), 'edge': '/tmp/' + 'd' * r.choice([1000, 4076, 4077]), 'nodir': 'rel.disir'}[k], **({'slash': True} if k == 'slash' else {'raw': True}))
        if ext and not p.endswith('.disir'): p += '.disir'
        return dict(path='store/' + p, raw=True) if r.random() < 0.12 else dict(path=p)
    def at(self, w): return norm(w['path'][6:] if w.get('raw') else w['path']) if not w.get('_odd') else None
    def target(self, w):
        t = self.at(w)
        return t if t is None or t.endswith('.disir') else t + '.disir'
    def known(self):
        """An archive that is there."""
        q = sorted(self.arcs)
        return dict(path=self.r.choice(q)) if q and self.r.random() < 0.85 else self.where(True)
    def fault(self):
        r = self.r; x = r.random()
        if x < 0.6: return dict(k='fail', n=r.randrange(1, 14), e=r.choice([5, 28, 13]))
        return dict(k='full', n=r.choice([0, 1, 100, 300, 600, 900, 1500]))
    def do_abegin(self, fault=None):
        if len(self.A) > 2: return
        a = self.fresh('ar'); w = self.known() if self.r.random() < 0.4 else {}
        o = self.S('abegin', i=self.i, a=a, fault=fault, **w)
        if o.get('got'): self.A[a] = dict(torn=False, ex=self.at(w) if w else None)
        return a if o.get('got') else None
    def do_aentry(self, a=None, fault=None, g=None, e=None):
        a = a or self.whole()
        if not a: return
        g = g if g is not None else self.group(); e = e or self.entry(g)
        if len(self.members(g)) > 1 and self.r.random() < 0.5: e = self.entry(g)
        o = self.S('aentry', i=self.i, a=a, g=g, e=e, fault=fault)
        if fault and o['st'] != 'OK': self.A[a]['torn'] = True
        return o['st']
    def do_agroup(self, a=None, fault=None, g=None):
        a = a or self.whole()
        if not a: return
        o = self.S('agroup', i=self.i, a=a, g=g or self.group(), e='', fault=fault)
        if o['st'] not in ('OK', 'EXISTS', 'GROUP_MISSING'): self.A[a]['torn'] = True
        return o['st']
    def looks(self, a, w):
        t = self.target(w); q = ['arc/one.disir', 'arc/two.disir']
        for p in (t, self.A[a]['ex']):
            if p: q += [p, p + '.backup']
        return sorted(set(q))
    def do_afin(self, a=None, w=None, fault=None):
        r = self.r; a = a or self.live()
        if not a: return
        ex = self.A[a]['ex']
        if w is None:
            w = {} if r.random() < 0.1 else dict(path=ex) if ex and r.random() < 0.5 else self.where()
        if self.A[a]['torn']: w = {}
        if not w: fault = None
        look = self.looks(a, w) if w else []
        o = self.S('afin', i=self.i, a=a, _look=look, fault=fault, **w)
        for l in o.get('look', []):
            if isinstance(l['arc'], list): self.arcs[l['path']] = 'arc'
            elif l['arc'] == 'absent': self.arcs.pop(l['path'], None)
        t = self.target(w) if w else None
        if o['st'] == 'OK' and t: self.arcs[t] = 'arc'
        if not o.get('kept'): self.A.pop(a)
        if r.random() < 0.3: self.S('fls')
        return o['st']
    def do_fafin(self):
        """An archive with something in it, finalized in trouble."""
        r = self.r
        a = None
        if r.random() < 0.75 and len(self.A) < 3:
            q = [p for p in self.arcs if self.arcs[p] == 'arc' and p.endswith('.disir')]
            a = self.fresh('ar'); w = dict(path=r.choice(sorted(q))) if q and r.random() < 0.75 else {}
            if not self.S('abegin', i=self.i, a=a, **w).get('got'): return
            self.A[a] = dict(torn=False, ex=self.at(w) if w else None)
            for _ in range(3):
                if self.do_aentry(a) == 'OK': break
        a = a or self.whole()
        if not a: return
        ex = self.A[a]['ex']
        p = ex if ex and r.random() < 0.55 else r.choice(['arc/one.disir', 'arc/two.disir', 'arc/sub/three.disir'])
        f = dict(k='crash', n=r.randrange(1, 16)) if r.random() < 0.55 else self.fault()
        self.do_afin(a, dict(path=p), f)
    def do_fabegin(self): self.do_abegin(fault=self.fault())
    def do_faentry(self): self.do_aentry(fault=self.fault())
    def do_fagroup(self): self.do_agroup(fault=self.fault())
    def do_faimport(self): self.do_aimport(fault=self.fault())
    def do_fifin(self): self.do_ifin(fault=self.fault())
    def do_mkd(self):
        p = self.r.choice(['arc', 'arc/sub', 'out', 'arc/d.disir', 'arc/two.disir.backup'])
        if p not in self.arcs and not any(f == p or p.startswith(f + '/') for f in self.arcs): self.S('mkd', path=p)
    # ------------------------------------------------------------ importing
    def do_aimport(self, fault=None, w=None):
        if len(self.P) > 1: return
        p = self.fresh('p'); w = w or self.known()
        o = self.S('aimport', i=self.i, p=p, fault=fault, **w)
        if o.get('got'): self.P[p] = (self.i, [(x['g'], x['e'], x['st']) for x in o['list']])
        return p if o.get('got') else None
    def pick(self, p=None):
        r = self.r; p = p or (r.choice(sorted(self.P)) if self.P else None)
        if p is None: return None
        if not self.P[p][1] or r.random() < 0.02: return dict(p=p, idx=r.choice([-1, -2147483648, 2147483647] + [len(self.P[p][1]), len(self.P[p][1]) + 1]))
        g, e, _ = r.choice(self.P[p][1])
        return dict(p=p, g=g, e=e)
    def do_istat(self):
        q = self.pick()
        if q: self.S('istat', **q)
    def do_ires(self, p=None):
        q = self.pick(p)
        if q: self.S('ires', opt=self.r.choice(OPTS) if self.r.random() < 0.97 else 'NONE', **q)
        if q and self.r.random() < 0.3: self.S('istat', **q)
    def do_ifin(self, p=None, opt=None, fault=None):
        r = self.r; p = p or (r.choice(sorted(self.P)) if self.P else None)
        if p is None: return
        i = self.P[p][0] if r.random() < 0.95 else r.choice(sorted(self.insts))
        ents = self.P[p][1]
        if len({e for _, e, _ in ents}) < len(ents): fault = None
        paths = []
        for g, e, _ in ents:
            q = [x for x in self.insts[i] if x['group'] == g]
            if q: paths.append(self.cpath(q[0], e))
        opt = opt or r.choice(['DO', 'DO', 'DO', 'DISCARD', 'NONE', 'UPDATE', 'FORCE'])
        o = self.S('ifin', i=i, p=p, opt=opt, report=bool(fault) or r.random() < 0.7, _paths=sorted(set(paths)), fault=fault)
        if not o.get('kept'):
            self.P.pop(p)
            if opt == 'DO':
                for t in o.get('texts', []): self.files[t['path']] = 'doc'
        if r.random() < 0.5: self.S('fls')
    def do_session(self):
        """An archive imported, each entry of it resolved, all of it written."""
        r = self.r
        q = sorted(self.arcs)
        if not q: return self.do_trip()
        self.do_swap()
        p = self.do_aimport(w=dict(path=r.choice(q)))
        if not p: return
        for g, e, st in self.P[p][1]:
            if r.random() < 0.1: continue
            good = {'OK': ['DO'], 'CONFLICT': ['FORCE', 'UPDATE', 'UPDATE_WITH_DISCARD'], 'CONFLICTING_SEMVER': ['FORCE', 'UPDATE', 'UPDATE_WITH_DISCARD', 'DO']}.get(st, OPTS)
            o = self.S('ires', p=p, g=g, e=e, opt=r.choice(good if r.random() < 0.75 else OPTS))
            if o['st'] != 'OK' and r.random() < 0.5: self.S('ires', p=p, g=g, e=e, opt=r.choice(OPTS))
            if r.random() < 0.2: self.S('istat', p=p, g=g, e=e)
        ents = self.P[p][1]; i = self.P[p][0]
        self.do_ifin(p, 'DO' if r.random() < 0.9 else None)
        self.i = i; self.plugs = self.insts[i]
        for g, e, _ in ents[:3]:
            c = self.do_cread(g, e)
            if c and r.random() < 0.5: self.S('cfree', c=c); self.C.pop(c, None); self.tree.pop(c, None)
    def do_trip(self):
        """Everything of one store exported, imported into the other."""
        r = self.r
        self.do_swap()
        if len(self.A) > 2: return
        a = self.do_abegin()
        if not a: return
        for g in sorted({p['group'] for p in self.plugs}):
            if r.random() < 0.6: self.do_agroup(a, g=g)
            else:
                for _ in range(2): self.do_aentry(a, g=g)
            if self.A[a]['torn']: break
        path = r.choice(['arc/one.disir', 'arc/two.disir'])
        if self.do_afin(a, dict(path=path)) == 'OK' and path in self.arcs and r.random() < 0.7: self.do_session()
    def do_drift(self):
        """A stored config changed a little, or its mold."""
        r = self.r
        self.do_swap(); g = self.group(); e = self.entry(g)
        if not self.members(g): return
        if r.random() < 0.3:
            self.putmold(self.mpathof(self.members(g)[0], e), self.anymold()); return
        c = self.do_cread(g, e)
        if not c: return
        if r.random() < 0.8: self.do_cset()
        if r.random() < 0.3: self.S('setver', x=c, v=r.choice([[1, 0], [1, 1], [2, 0]])) if False else None
        self.do_cwrite(g, e, c)
        if c in self.C: self.S('cfree', c=c); self.C.pop(c, None); self.tree.pop(c, None)
    # ------------------------------------------------------------ made by hand
    def handmade(self):
        """Backends with groups with entries; [(backend, group, entry, version text, document)]."""
        r = self.r; ents = []
        for i in range(r.choice([1, 1, 2, 3, 4])):
            g = self.group() if r.random() < 0.9 else r.choice(['nosuch', 'x y', 'k.l'])
            q = [p for p in self.insts[r.choice(sorted(self.insts))] if p['group'] == g]
            b = q[0]['name'] if q and r.random() < 0.93 else r.choice(['plug', 'other', 'p.q'])
            e = r.choice(IDS) if r.random() < 0.9 else r.choice(['Upper', 'a b', 'ns/', 'a-b', '__namespace', 'c' * 120])
            if any(x[1] == g and x[2] == e for x in ents) or any('%s/%s/%s' % (x[0], x[1], x[2]) == '%s/%s/%s' % (b, g, e) for x in ents): continue
            if e.endswith('/') or not g: continue
            m = self.anymold()
            if r.random() < 0.93:
                d = self.document(q[0]['fmt'] if q and r.random() < 0.95 else r.choice(['json', 'toml']), m)
                if r.random() < 0.5: d = self.document_of(m, d)
            else: d = dict(text=r.choice(['{', 'a =', 'x']), junk=True)
            ents.append([b, g, e, r.choice(['1.0', '1.0', '2.0', '1.1', '', 'x', '1.00', '9.9']), d])
        return ents
    def document_of(self, m, d):
        """As the library writes it."""
        fmt = d['_doc']['fmt']
        c = self.fresh('c')
        if self.S('gen', m=m, ver=self.version(m), c=c)['st'] != 'OK': return d
        if fmt == 'json':
            a = self.S('ser', c=c, fmt='json', d=self.fresh('d'), i='i1')
            self.S('cfree', c=c)
            try: w = parse_json(a['text'])
            except (KeyError, ValueError): return d
            return dict(text=a['text'], _doc=dict(fmt=fmt, ver=child(w, 'version'), body=child(w, 'config')))
        self.S('cfree', c=c)
        return d
    def meta(self, ents):
        backs = {}
        for b, g, e, v, d in ents: backs.setdefault(b, {}).setdefault(g, []).append((e, v))
        return {'impl': '@VERSION@', 'org': '0/1-draft', 'backs': backs}
    def items(self, ents, M):
        q = lambda s: json.dumps(s)
        t = ''
        if M['impl'] is not None: t += 'implementation = %s\n' % (M['impl'] if M.get('rawimpl') else q(M['impl']))
        if M['org'] is not None: t += 'disir_org_version = %s\n' % (M['org'] if M.get('raworg') else q(M['org']))
        for b, gs in M['backs'].items():
            t += '[[backend]]\nid = %s\ngroups = [%s]\n' % (q(b), ', '.join(q(g) for g in gs))
        out = [dict(n='metadata.toml', text=M.get('text', t))]
        for b, gs in M['backs'].items():
            u = ''
            for g, es in gs.items():
                u += '[%s]\n' % q(g) + ''.join('%s = %s\n' % (q(e), q(v)) for e, v in es)
            out.append(dict(n=b + '/entries.toml', text=u))
        for b, g, e, v, d in ents: out.append(dict(n='%s/%s/%s' % (b, g, e), text=d['text']))
        return out
    def put_archive(self, items, ents, extra, hostile=False, **kw):
        r = self.r
        path = r.choice(['arc/one.disir', 'arc/two.disir', 'arc/hand.disir', 'arc/hand'])
        if path in self.dirs: return
        dub = 'cut' in kw or 'flip' in kw
        rec = dict(hostile=hostile, dub=dub, extra=extra, ents=[dict(b=b, g=g, e=e, ver=v, doc=d.get('_doc'), text=d['text']) for b, g, e, v, d in ents])
        self.S('aput', path=path, items=items, _arc=rec, **kw)
        self.arcs[path] = 'hostile' if hostile or dub else 'arc'
        return path
    def do_aput(self):
        r = self.r; ents = self.handmade()
        if not ents: return
        items = self.items(ents, self.meta(ents)); extra = []
        if r.random() < 0.15: items.append(dict(n='readme', text='x')); extra.append('readme')
        if r.random() < 0.1: items.append(dict(n='some/dir', type='dir'))
        if r.random() < 0.5: r.shuffle(items)
        if len([1 for x in items if x.get('type') == 'dir']) and r.random() < 0.5: items.sort(key=lambda x: x['n'])
        self.put_archive(items, ents, extra, filter=r.choice(['xz', 'xz', 'xz', 'none']))
    def do_evil(self):
        """An archive to be refused, or a damaged one; then looked at by import, or by extending it."""
        r = self.r; ents = self.handmade()
        if not ents: return
        M = self.meta(ents); items = self.items(ents, M); x = r.randrange(28); kw = {}; bad = True
        at = lambda n: next(i for i, y in enumerate(items) if y['n'] == n)
        if x == 0: items.pop(0)
        elif x == 1: items[0]['text'] = r.choice(['', '[', 'x', 'a = 1'])
        elif x == 2: M['impl'] = r.choice([None, 'x', '0.0.0', '', '@VERSION@x']); items = self.items(ents, M)
        elif x == 3: M['org'] = r.choice([None, '0/2', '', '0/1-draft ']); items = self.items(ents, M)
        elif x == 4: M['impl'] = r.choice(['1', 'true', '[1]', '{a = 1}']); M['rawimpl'] = True; items = self.items(ents, M)
        elif x == 5: M['org'] = r.choice(['1', '1.5', '["x"]', '{a = 1}']); M['raworg'] = True; items = self.items(ents, M)
        elif x in (6, 7):
            head = 'implementation = "@VERSION@"\ndisir_org_version = "0/1-draft"\n'
            items[0]['text'] = head + r.choice(['', 'backend = 1', 'backend = "x"', 'backend = [1, 2]', 'backend = ["x"]', 'backend = {a = 1}', '[[backend]]\nid = "plug"', '[[backend]]\ngroups = ["grp"]',
                '[[backend]]\nid = 1\ngroups = ["grp"]', '[[backend]]\nid = "plug"\ngroups = "grp"', '[[backend]]\nid = "plug"\ngroups = []', '[[backend]]\nid = "plug"\ngroups = [1]', '[[backend]]\nid = "nosuch2"\ngroups = ["grp"]',
                '[[backend]]\nid = "plug"\ngroups = ["nosuch2"]', '[[backend]]\nid = ["plug"]\ngroups = ["grp"]', '[[backend]]\nid = ""\ngroups = ["grp"]', '[backend]\nid = "plug"\ngroups = ["grp"]', '[[backend]]\nid = "../.."\ngroups = ["grp"]'])
        elif x == 8: items.pop(at(ents[0][0] + '/entries.toml'))
        elif x == 9: items[at(ents[0][0] + '/entries.toml')]['text'] = r.choice(['', 'x', '[', '%s = 1' % json.dumps(ents[0][1]), '%s = "x"' % json.dumps(ents[0][1]), '[%s]\na = 1' % json.dumps(ents[0][1]), '[%s]\na = ["x"]' % json.dumps(ents[0][1]),
                '[%s]\nnosuch_ = "1.0"' % json.dumps(ents[0][1]), '[[%s]]\na = "1.0"' % json.dumps(ents[0][1]), '[%s]\n"../../x" = "1.0"' % json.dumps(ents[0][1]), '[%s.deeper]\na = "1.0"' % json.dumps(ents[0][1])])
        elif x == 10: items.pop(at('%s/%s/%s' % tuple(ents[0][:3])))
        elif x in (11, 12, 13):
            up = r.choice(['../x', '../../@STORE@/evil', 'a/../../x', '../../../../../..@STORE@/evil', './../x', 'plug/..', '..', 'a/../../../@STORE@/s1/evil'])
            items.insert(r.randrange(len(items) + 1), dict(n=up, text='evil'))
        elif x in (14, 15):
            items[r.randrange(len(items))].update(type=r.choice(['symlink', 'hardlink', 'fifo', 'dev']), to=r.choice(['@STORE@/arc/one.disir', '/etc/passwd', '@STORE@', '..', 'metadata.toml', 'x']))
        elif x in (16, 17):
            n = r.choice(['l', 'plug', 'plug/grp'])
            items = [dict(n=n, type='symlink', to=r.choice(['@STORE@/arc', '@STORE@', '@STORE@/s1', '..']))] + items + [dict(n=n + '/evil', text='evil')]
        elif x == 18: items.insert(r.randrange(len(items) + 1), dict(n='dir', type=r.choice(['fifo', 'dev', 'symlink', 'hardlink']), to='@STORE@/arc/two.disir'))
        elif x == 19: items = []
        elif x == 20: kw['bytes'] = r.choice(['', 'x', 'hex:fd377a585a00', '{"a": 1}', 'hex:' + '00' * 512, 'hex:' + '00' * 1024, 'hex:' + 'ff' * 600])
        elif x == 21: items.insert(r.randrange(len(items) + 1), dict(n='n' * 300, text='x'))
        elif x == 22: items.insert(r.randrange(len(items) + 1), dict(n='d/' * 2100 + 'x', text='x'))
        elif x == 23: kw['filter'] = 'gz'
        elif x in (24, 25): kw['cut'] = r.choice([0.0, 0.1, 0.3, 0.5, 0.7, 0.9, 0.97, 0.99]); bad = False
        elif x in (26, 27): kw['flip'] = r.random(); bad = False
        if kw.get('cut') == 0.0: bad = True; kw = dict(bytes='')
        p = self.put_archive(items, [] if bad else ents, [], hostile=bad, **kw)
        if not p: return
        w = dict(path=p)
        if r.random() < 0.75: self.do_aimport(w=w)
        elif len(self.A) < 3 and p.endswith('.disir'):
            a = self.fresh('ar')
            if self.S('abegin', i=self.i, a=a, **w).get('got'): self.A[a] = dict(torn=False, ex=p)
        self.S('fls')
        if bad and r.random() < 0.7: self.S('fdel', path=p); self.arcs.pop(p, None)

def scenario(r, drv, profile, steps):
    S = Session(drv); g = AGen(r, S, profile)
    S('reset'); S('iblank', i='i1')
    one, two = stores(r); g.insts = {'s1': one, 's2': two}
    for i in sorted(g.insts):
        if S('inst', i=i, plugs=g.insts[i])['st'] != 'OK': return S.log
    S('mkd', path='arc/sub')
    for i in range(r.choice([1, 2, 2, 3])):
        m = gm.mold(r, depth=r.choice([0, 0, 1])); g.molds['m%d' % (i + 1)] = m
        if S('mold', m='m%d' % (i + 1), mold=m)['st'] != 'OK': return S.log
    g.n += 3; g.plugs = one
    g.do_mput(); g.do_mput(); g.filled()
    for _ in range(steps):
        g.step()
        if S.dead: break
    if not S.dead:
        for a in sorted(g.A):
            if r.random() < 0.5: S('afin', i='s1', a=a, _look=[])
        for p in sorted(g.P):
            if r.random() < 0.5: S('ifin', i='s1', p=p, opt='DISCARD', report=False, _paths=[])
        S('fls'); g.finish()
    return S.log

# ---------------------------------------------------------------- encoding
def vernum(t, N):
    p = parse_version(t)
    if p and '%d.%d' % p == t: return N.v(p)
    return N.__dict__.setdefault('odd', {}).setdefault(t, -1000 - len(N.__dict__.get('odd', {})))
def isver(t):
    p = parse_version(t)
    return p if p and '%d.%d' % p == t else None
def entry_text(t):
    """A config as text: {'k': 'json', w: tree of it, ...} or toml."""
    try: w = parse_json(t)
    except ValueError: return None
    return w if w['k'] == 'object' else None
def opened(files):
    """What the index of an archive says, and its files."""
    by = {}
    for f in files:
        if not f['file'] and f['n'].rstrip('/') == 'some/dir': continue
        if f['n'] in by or not f['file']: return None
        by[f['n']] = f['text']
    try:
        M = tomllib.loads(by.pop('metadata.toml'))
        if M['implementation'] != '@VERSION@' or M['disir_org_version'] != '0/1-draft': return None
        index = []
        for b in M['backend']:
            T = tomllib.loads(by.pop(b['id'] + '/entries.toml'))
            if sorted(T) != sorted(b['groups']): return None
            for g in b['groups']:
                for e, v in T[g].items(): index.append(dict(b=b['id'], g=g, e=e, ver=v, text=by.pop('%s/%s/%s' % (b['id'], g, e))))
        return dict(index=index, extra=sorted(by))
    except (KeyError, TypeError, AttributeError, tomllib.TOMLDecodeError): return None
def text_shape(t):
    w = entry_text(t)
    if w is None: return {'k': 'toml'}
    b = child(w, 'config')
    return shape(b) if b else MISSING
def prepare(log):
    """Open what was archived, and tell the additions what text became of them."""
    log = [(dict(c), dict(o)) for c, o in log]
    pend = {}
    for c, o in log:
        op = c['op']
        if op == 'abegin' and o.get('got'): pend[c['a']] = []
        elif op in ('aentry', 'agroup') and c['a'] in pend: pend[c['a']].append(c); c['_trees'] = []
        elif op == 'afin':
            o['_look'] = []
            for l in o.get('look', []):
                z = opened(l['arc']) if isinstance(l['arc'], list) else None
                o['_look'].append(dict(path=l['path'], k='absent' if l['arc'] == 'absent' else 'arc' if z else 'other', index=z['index'] if z else [], extra=z['extra'] if z else []))
                if z:
                    for y in z['index']:
                        w = entry_text(y['text'])
                        for d in pend.get(c['a'], []):
                            if w and d['g'] == y['g'] and d['op'] == 'agroup' or d.get('e') == y['e']: d['_trees'].append((y['g'], y['e'], w, l['path']))
            if 'path' in c:
                # only what came to be at the path that was asked for
                t = place(c)
                for d in pend.get(c['a'], []): d['_trees'] = [q for q in d['_trees'] if q[3] == t and q[2] is not None] if t and any(q[3] == t for q in d['_trees']) else []
            if not o.get('kept'): pend.pop(c['a'], None)
        elif op == 'ifin': c['_trees'] = [(t['path'], entry_text(t['text'])) for t in o.get('texts', [])]
    return log
def store_path(c): return norm(c['path'][6:] if c.get('raw') and c['path'].startswith('store/') else c['path'])
def place(c):
    if c.get('_odd'): return None
    t = store_path(c)
    return t if t.endswith('.disir') else t + '.disir'
def gather(c, o, N, names):
    gen_store.gather(c, o, N, names)
    def text(t):
        w = entry_text(t)
        if w is None: return
        walk_tree(w, N, names); v = child(w, 'version')
        if v and v['k'] == 'string' and parse_version(v['v']): N.vers.add(parse_version(v['v']))
    def ver(t):
        if isver(t): N.vers.add(isver(t))
    for l in o.get('_look', []):
        for y in l['index']: text(y['text']); ver(y['ver'])
    for t in o.get('texts', []): text(t['text'])
    for x in o.get('list', []):
        if isinstance(x, dict) and 'vtext' in x: ver(x['vtext'])
    for t in o.get('lines', []): ver(line(t)['v'])
    if c.get('_arc'):
        for y in c['_arc']['ents']:
            ver(y['ver']); text(y['text'])
            if y['doc']:
                if y['doc']['body']: walk_tree(y['doc']['body'], N, names)
                v = y['doc']['ver']
                if v and v['k'] == 'string' and parse_version(v['v']): N.vers.add(parse_version(v['v']))
def line(t):
    if not isinstance(t, str): return dict(k='?', e='', v='')
    k, _, rest = t.partition(':'); e = rest.lstrip(' ')
    if t[:16] != (k + ':').ljust(16): k = '?'
    v = ''
    if k == 'Imported' and e.endswith(')') and ' (' in e: e, _, v = e[:-1].rpartition(' (')
    return dict(k=k, e=e, v=v)
def seen_look(l, N):
    return dict(path=l['path'], k=l['k'], extra=l['extra'], index=[dict(b=y['b'], g=y['g'], e=y['e'], ver=vernum(y['ver'], N) if isinstance(y['ver'], str) else -1, shape=text_shape(y['text'])) for y in l['index']])
def trees(q, N):
    out = []
    for g, e, w, _ in q:
        b = child(w, 'config')
        out.append(dict(g=g, e=e, tree=tree(b, N) if b else MISSING))
    return out
def extra(c, o, C_, A, N):
    gen_store.extra(c, o, C_, A, N)
    op = c['op']
    if op in ('abegin', 'afin', 'aimport') and 'path' in c:
        C_['odd'] = c.get('_odd', ''); C_['sp'] = ('/' if c.get('raw') else '') + c['path']; C_['path'] = c['_odd'] if c.get('_odd') else store_path(c)
    if op in ('mkd', 'aput'): C_['path'] = norm(c['path'])
    if op in ('abegin', 'aimport'): C_['got'] = bool(o.get('got'))
    if op in ('aentry', 'agroup'):
        C_['trees'] = trees(c.get('_trees', []), N); C_['order'] = N.order; C_['seenst'] = o['st']
    if op == 'afin':
        C_['look'] = c.get('_look', []); C_['seenst'] = o['st']; C_['keptseen'] = bool(o.get('kept')); C_['hit'] = bool(o.get('hit'))
        A['look'] = C_['sights'] = [seen_look(l, N) for l in o.get('_look', [])]
        A.pop('_look', None)
    if op == 'aput':
        a = c['_arc']; C_.pop('items', None)
        C_['arc'] = {'k': 'hostile'} if a['hostile'] else dict(k='arc', dub=a['dub'], extra=a['extra'], ents=[dict(b=y['b'], g=y['g'], e=y['e'], ver=vernum(y['ver'], N), shape=text_shape(y['text']), doc=doc_rec(y['doc'], N) if y['doc'] else {'k': 'junk'}) for y in a['ents']])
    if op == 'aimport' and 'list' in o:
        A['list'] = [dict(g=x['g'], e=x['e'], ver=vernum(x['vtext'], N), st=x['st']) for x in o['list']]
    if op == 'ifin':
        C_['order'] = N.order
        C_['trees'] = [dict(path=p, tree=tree(child(w, 'config'), N) if child(w, 'config') else MISSING) for p, w in c.get('_trees', []) if w]
        q = [line(t) for t in o.get('lines', [])]
        for x in q: x['ver'] = vernum(x.pop('v'), N) if x['v'] else 0
        C_['outcome'] = q
        n = {}
        for x in q: n[(x['k'], x['e'], x['ver'])] = n.get((x['k'], x['e'], x['ver']), 0) + 1
        A['lines'] = [dict(k=k, e=e, ver=v, n=i) for (k, e, v), i in n.items()]
        A['texts'] = [dict(path=t['path'], shape=text_shape(t['text'])) for t in o.get('texts', [])]
def encode(log): return gen_doc.encode(prepare(log), extra=extra, gather=gather)
