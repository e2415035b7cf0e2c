"""Seeded histories that build molds call by call, well-formed or not, and then use them."""
import copy
import genmold as gm
from gen_config import Session, TXT

VR = gm.VERS + [[0, 5], [1, 3], [4, 0]]
BADNAMES = ['BadName', 'sp ace', 'dot.x', 'x@1', 'n' * 300, '9', '_', 'A', 'a-b', 'a+b', 'a`', 'a{', 'a:', 'a/b', 'a^', 'aZ']
DOCS = ['about', 'the value', 'two\nlines', 'x' * 60, 'ø']
P = {  # profiles: weights of single calls, chance of disturbing the plan, chance of a fresh plan
 'molds':  dict(noise=0.06, free=0.15, plans=(2, 5)),
 'docs':   dict(noise=0.05, free=0.35, plans=(1, 3)),
 'broken': dict(noise=0.22, free=0.25, plans=(2, 4)),
}
ASK = ['xdump', 'getdoc', 'rcoll', 'rget', 'defs', 'getdef', 'limits', 'getintro', 'getdepr', 'ctxvalid', 'ctxtype', 'vtype', 'getver', 'finds', 'elems', 'getname', 'gettype', 'getv', 'findq']
ACT = ['begin', 'setname', 'settype', 'intro', 'depr', 'setv', 'rtype', 'rnum', 'rrange', 'rstr', 'fin', 'finkeep', 'addkv', 'adddef', 'adddeftext', 'addmin', 'addmax', 'rvadd', 'adddoc', 'adddocv', 'setver', 'findh', 'put', 'destroy']

class MGen:
    def __init__(self, r, S, profile):
        self.r, self.p = r, profile
        def guarded(op, **kw):          # never a handle that is no longer there
            x = kw.get('x')
            if x is not None and x not in self.h and x not in self.M and x not in self.C: return {'st': 'SKIPPED'}
            if op in ('intro', 'depr') and x in self.h and self.h[x]['st'] != 'con': return {'st': 'SKIPPED'}   # dates are given before finalizing
            if op == 'rtype' and x in self.h:         # a restriction keeps the type it was given first
                d = self.h[x]
                if d.get('rt', kw['rt']) != kw['rt']: return {'st': 'SKIPPED'}
                a = S(op, **kw)
                if a['st'] == 'OK': d['rt'] = kw['rt']
                return a
            return S(op, **kw)
        self.S = guarded; self.ses = S
        self.h = {}       # handle -> dict(k, st, par, t, name, defs)
        self.M = {}       # mold handle -> usable?
        self.C = {}
        self.n = 0
        self.names = {}   # parent handle -> names tried
    def fresh(self, p='x'):
        self.n += 1
        return '%s%d' % (p, self.n)
    def pick(self, ks=None, st=None):
        q = sorted(x for x, d in self.h.items() if (ks is None or d['k'] in ks) and (st is None or d['st'] in st))
        return self.r.choice(q) if q else None
    def ver(self): return list(self.r.choice(VR))
    def vq(self): return self.r.choice([None] + VR)
    def new(self, x, k, par, st='con', **kw):
        self.h[x] = dict(k=k, st=st, par=par, t=kw.get('t'), name=kw.get('name'), defs=kw.get('defs', 0))
    def num(self, t):
        v = gm.rvalue(self.r, t if t == 'FLOAT' else 'INTEGER', False)
        return '%.17g' % float(v)
    # ------------------------------------------------------------ single calls
    def begin(self, par, k):
        x = self.fresh()
        a = self.S('begin', x=par, k=k, **{'as': x})
        if a['st'] != 'OK': return None
        self.new(x, k, par, t=self.h[par]['t'] if k == 'DEFAULT' and par in self.h else None)
        return x
    def setname(self, x, n):
        a = self.S('setname', x=x, name=n)
        if a['st'] == 'OK' and x in self.h: self.h[x]['name'] = n
    def fin(self, x, keep=False):
        d = self.h[x]
        if d['k'] == 'MOLD':
            self.S('fin', x=x); return
        if keep:
            a = self.S('finkeep', x=x)
            if a['st'] in ('OK', 'INVALID_CONTEXT'): d['st'] = 'fin'
        else:
            a = self.S('fin', x=x)
            if not a.get('kept', True): del self.h[x]
            elif a['st'] == 'INVALID_CONTEXT': d['st'] = 'fin'
        if a['st'] in ('OK', 'INVALID_CONTEXT') and d['par'] in self.h and d['k'] == 'DEFAULT': self.h[d['par']]['defs'] += 1
    def name(self, par):
        r = self.r
        if r.random() < 0.05: return r.choice(BADNAMES)
        q = self.names.setdefault(par, [])
        n = r.choice(q) if q and r.random() < 0.06 else r.choice([x for x in gm.NAMES if x not in q] or gm.NAMES)
        q.append(n)
        return n
    def rest(self, par, t):
        """A restriction in the long way."""
        r = self.r
        x = self.begin(par, 'RESTRICTION')
        if not x: return
        rt = r.choice(['MIN', 'MAX'] + (['ENUM', 'ENUM'] if t == 'ENUM' else ['RANGE', 'NUMERIC'] if t in ('INTEGER', 'FLOAT') else []))
        st = [lambda: self.S('rtype', x=x, rt=rt)]
        def val():
            t = self.h[par]['t'] if par in self.h else None
            if rt in ('MIN', 'MAX'): self.S('rnum', x=x, n=str(r.choice([0, 0, 1, 2, 3])))
            elif rt == 'NUMERIC': self.S('rnum', x=x, n=self.num(t))
            elif rt == 'RANGE':
                a, b = sorted([float(self.num(t)), float(self.num(t))])
                if r.random() < 0.05: a, b = b, a
                self.S('rrange', x=x, lo='%.17g' % a, hi='%.17g' % b)
            else: self.S('rstr', x=x, s=r.choice(['red', 'green', 'blue', 'x']))
        st.append(val)
        if r.random() < 0.4: st.append(lambda: self.S('intro', x=x, ver=self.ver()))
        if r.random() < 0.25: st.append(lambda: self.S('depr', x=x, ver=self.ver()))
        if r.random() < 0.25: st.append(lambda: self.doc(x))
        self.run(st)
        self.finish(x)
    def finish(self, x):
        if x not in self.h: return
        self.fin(x, self.r.random() < 0.15)
        if x in self.h and self.h[x]['st'] == 'con' and self.h[x]['k'] != 'MOLD':
            if self.r.random() < 0.7: self.destroy(x)
    def doc(self, par):
        self.doc1(par)
        while self.p == 'docs' and par in self.h and self.r.random() < 0.45: self.doc1(par)
    def doc1(self, par):
        r = self.r
        if r.random() < 0.6: self.S('adddoc', x=par, v=r.choice(DOCS + ['']) if r.random() < 0.05 else r.choice(DOCS)); return
        if r.random() < 0.25: self.S('adddocv', x=par, v=r.choice(DOCS), intro=self.ver()); return
        # several versions of documentation can be added while none is stored
        if par not in self.h: return
        q = [self.begin(par, 'DOCUMENTATION') for _ in range(r.choice([1, 1, 2, 3]))]
        q = [x for x in q if x]
        for x in q:
            st = [lambda x=x: self.S('setv', x=x, t='STRING', v=r.choice(DOCS))]
            if r.random() < 0.7: st.append(lambda x=x: self.S('intro', x=x, ver=self.ver()))
            self.run(st)
        r.shuffle(q)
        for x in q: self.finish(x)
    def default(self, par, t):
        r = self.r
        x = r.random()
        if x < 0.55:
            a = self.S('adddef', x=par, t=t if r.random() < 0.95 else r.choice(gm.TYPES), v='?', intro=self.ver()) if False else None
            tt = t if r.random() < 0.95 else r.choice(gm.TYPES)
            a = self.S('adddef', x=par, t=tt, v=gm.rvalue(r, tt, r.random() < 0.3), intro=self.ver())
            if a['st'] in ('OK', 'INVALID_CONTEXT') and par in self.h: self.h[par]['defs'] += 1
        elif x < 0.7:
            v = gm.rvalue(r, t, False) if r.random() < 0.7 else r.choice(TXT)
            a = self.S('adddeftext', x=par, v=v, intro=self.ver())
            if a['st'] in ('OK', 'INVALID_CONTEXT') and par in self.h: self.h[par]['defs'] += 1
        else:
            d = self.begin(par, 'DEFAULT')
            if not d: return
            st = [lambda: self.S('setv', x=d, t=t, v=gm.rvalue(r, t, r.random() < 0.3))]
            if r.random() < 0.8: st.append(lambda: self.S('intro', x=d, ver=self.ver()))
            if r.random() < 0.05: st.append(lambda: self.S('depr', x=d, ver=self.ver()))
            if r.random() < 0.05: st.append(lambda: self.S('getv', x=d, t=t))
            self.run(st)
            self.finish(d)
    def vrest(self, par, t):
        r = self.r
        rt = 'ENUM' if t == 'ENUM' else r.choice(['RANGE', 'NUMERIC'])
        t = self.h[par]['t'] if par in self.h else None       # whole numbers unless it takes fractions
        if r.random() < 0.1: rt = r.choice(['ENUM', 'RANGE', 'NUMERIC'])
        kw = {}
        if rt == 'ENUM': kw['s'] = r.choice(['red', 'green', 'blue', 'x'])
        elif rt == 'NUMERIC': kw['n'] = self.num(t)
        else:
            a, b = sorted([float(self.num(t)), float(self.num(t))]); kw['lo'], kw['hi'] = '%.17g' % a, '%.17g' % b
        x = self.fresh() if r.random() < 0.4 and len(self.h) < 14 else None
        if r.random() < 0.4: kw['doc'] = r.choice(DOCS)
        if r.random() < 0.6: kw['intro'] = self.ver()
        a = self.S('rvadd', x=par, rt=rt, **dict(kw, **{'as': x}))
        if a.get('out') and x: self.new(x, 'RESTRICTION', par, 'fin')
    def addkv(self, par):
        r = self.r
        t = r.choice(gm.TYPES)
        x = self.fresh() if r.random() < 0.4 and len(self.h) < 14 else None
        kw = {'intro': self.ver()} if r.random() < 0.7 else {}
        n = self.name(par)
        a = self.S('addkv', x=par, name=n, t=t, v=gm.rvalue(r, t, r.random() < 0.3), doc=r.choice(DOCS) if r.random() < 0.97 else '', **dict(kw, **{'as': x}))
        if x and a['st'] in ('OK', 'INVALID_CONTEXT'): self.new(x, 'KEYVAL', par, 'fin', t=t, name=n, defs=1)
    def keyval(self, par):
        r = self.r
        if r.random() < 0.3: self.addkv(par); return
        x = self.begin(par, 'KEYVAL')
        if not x: return
        t = r.choice(gm.TYPES)
        st = [lambda: self.setname(x, self.name(par)), lambda: self.settype(x, t)]
        if r.random() < 0.15: st.reverse()
        rest = [lambda: self.default(x, t) for _ in range(r.choice([0, 1, 1, 1, 2, 3, 4]))]
        rest += [lambda: self.rest(x, t) for _ in range(r.choice([0, 0, 1, 2]))]
        rest += [lambda: self.vrest(x, t) for _ in range(r.choice([0, 0, 1, 2]))]
        rest += [lambda: self.lim(x) for _ in range(r.choice([0, 0, 1, 2]))]
        if r.random() < 0.5: rest.append(lambda: self.doc(x))
        if r.random() < 0.25: rest.append(lambda: self.S('depr', x=x, ver=self.ver()))
        if r.random() < 0.05: rest.append(lambda: self.S('intro', x=x, ver=self.ver()))
        r.shuffle(rest)
        self.run(st + rest)
        if x in self.h and self.h[x]['st'] == 'con' and r.random() < 0.3: self.look(x)
        self.finish(x)
    def lim(self, x):
        r = self.r
        self.S(r.choice(['addmin', 'addmax']), x=x, n=r.choice([0, 0, 1, 2, 3, 4]), intro=self.ver() if r.random() < 0.7 else None)
    def settype(self, x, t):
        d = self.h.get(x)
        if not d or d['defs'] or any(y['par'] == x for y in self.h.values()): return
        if self.S('settype', x=x, t=t)['st'] == 'OK': d['t'] = t
    def section(self, par, depth):
        r = self.r
        x = self.begin(par, 'SECTION')
        if not x: return
        st = [lambda: self.setname(x, self.name(par))]
        rest = [lambda: self.element(x, depth - 1) for _ in range(r.choice([0, 1, 2, 3]))]
        rest += [lambda: self.rest(x, None) for _ in range(r.choice([0, 0, 1]))]
        rest += [lambda: self.lim(x) for _ in range(r.choice([0, 0, 1, 2]))]
        if r.random() < 0.4: rest.append(lambda: self.doc(x))
        if r.random() < 0.3: rest.append(lambda: self.S('intro', x=x, ver=self.ver()))
        if r.random() < 0.2: rest.append(lambda: self.S('depr', x=x, ver=self.ver()))
        if r.random() < 0.05: rest.append(lambda: self.vrest(x, r.choice(gm.TYPES)))
        r.shuffle(rest)
        self.run(st + rest)
        self.finish(x)
    def element(self, par, depth):
        if par in self.h and self.size() < 40:
            if depth > 0 and self.r.random() < 0.4: self.section(par, depth)
            else: self.keyval(par)
    def size(self): return self.n
    def run(self, steps):
        """The steps, disturbed now and then."""
        q = P[self.p]
        for f in steps:
            if self.ses.dead: return
            x = self.r.random()
            if x < q['noise'] * 0.5: continue
            if x < q['noise']: self.free()
            f()
            if self.r.random() < q['free'] * 0.3: self.look()
    # ------------------------------------------------------------ looking and disturbing
    def look(self, x=None):
        r, S = self.r, self.S
        if x is None:
            q = sorted(self.h) + sorted(self.M)
            if not q: return
            x = r.choice(q)
        k = self.h[x]['k'] if x in self.h else 'MOLD'
        op = r.choice(ASK)
        if self.p == 'docs' and r.random() < 0.5: op = 'getdoc'
        if op == 'xdump':
            if k in ('MOLD', 'SECTION', 'KEYVAL'): S('xdump', x=x, vers=self.vers())
        elif op in ('getdoc', 'getdef'): S(op, x=x, ver=self.vq())
        elif op == 'getv': S(op, x=x, t=r.choice(gm.TYPES))
        elif op == 'finds': S(op, x=x, name=r.choice(gm.NAMES + ['nosuch', '']))
        elif op == 'findq': S('find', x=x, name=r.choice(gm.NAMES + ['nosuch', '']), idx=r.choice([0, 0, 0, 1, 2]))
        else: S(op, x=x)
    def vers(self): return [None] + [list(v) for v in self.r.sample(VR, 3)]
    def destroy(self, x):
        self.S('destroy', x=x)
        gone = [x]
        while gone:
            y = gone.pop()
            self.h.pop(y, None) if y == x else None
            gone += [z for z in self.h if self.h[z]['par'] == y and z != y and self.mark(z)]
    def mark(self, z):
        d = self.h[z]
        if d.get('gone'): return False
        d['gone'] = True
        return True
    def free(self):
        """A call of its own, wanted or not."""
        r, S = self.r, self.S
        op = r.choice(ACT)
        x = self.pick()
        if not x: return
        d = self.h[x]; k = d['k']
        root = self.usable_root(x)
        if op == 'begin':
            if len(self.h) < 16: self.begin(x, r.choice(['KEYVAL', 'SECTION', 'DEFAULT', 'RESTRICTION', 'DOCUMENTATION'] + (['MOLD', 'CONFIG'] if r.random() < 0.3 else [])))
        elif op == 'setname': self.setname(x, r.choice(gm.NAMES + BADNAMES))
        elif op == 'settype':
            if k == 'KEYVAL' and d['st'] == 'con' or k != 'KEYVAL': self.settype(x, r.choice(gm.TYPES))
        elif op in ('intro', 'depr'):
            if d['st'] == 'con': S(op, x=x, ver=self.ver())
        elif op == 'setv':
            t = r.choice(gm.TYPES)
            if k == 'DOCUMENTATION': t = 'STRING'
            v = gm.rvalue(r, t, False)
            if k == 'DOCUMENTATION': v = r.choice(DOCS)
            S('setv', x=x, t=t, v=v)
        elif op == 'rtype': S(op, x=x, rt=r.choice(['MIN', 'MAX', 'ENUM', 'RANGE', 'NUMERIC']))
        elif op == 'rnum': S(op, x=x, n=str(r.choice([0, 1, 2, 3])))
        elif op == 'rrange': S(op, x=x, lo='-1', hi='3')
        elif op == 'rstr': S(op, x=x, s=r.choice(['red', 'x']))
        elif op == 'fin': self.fin(x)
        elif op == 'finkeep': 
            if k != 'MOLD': self.fin(x, True)
            else: S(op, x=x)
        elif op == 'addkv': self.addkv(x)
        elif op == 'adddef':
            t = d['t'] if d['t'] and r.random() < 0.8 else r.choice(gm.TYPES)
            a = S('adddef', x=x, t=t, v=gm.rvalue(r, t, False), intro=self.ver())
            if a['st'] in ('OK', 'INVALID_CONTEXT'): d['defs'] += 1
        elif op == 'adddeftext':
            a = S('adddeftext', x=x, v=r.choice(TXT), intro=self.ver())
            if a['st'] in ('OK', 'INVALID_CONTEXT'): d['defs'] += 1
        elif op in ('addmin', 'addmax'): self.lim(x)
        elif op == 'rvadd': self.vrest(x, d['t'] or r.choice(gm.TYPES))
        elif op == 'adddoc': S('adddoc', x=x, v=r.choice(DOCS))
        elif op == 'adddocv': S('adddocv', x=x, v=r.choice(DOCS), intro=self.ver())
        elif op == 'setver':
            if r.random() < 0.3: S('setver', x=x, ver=list(r.choice(gm.VERS)))
        elif op == 'findh':
            if k in ('MOLD', 'SECTION') and len(self.h) < 16 or r.random() < 0.1:
                y = self.fresh(); n = r.choice(gm.NAMES)
                a = S('find', x=x, name=n, idx=0, **{'as': y})
                if a['st'] == 'OK':
                    b = S('ctxtype', x=y); t = None
                    if b.get('k') == 'KEYVAL': t = S('gettype', x=y).get('t')
                    self.new(y, b.get('k'), x, 'fin', t=t, name=n, defs=1)
        elif op == 'put':
            if d['st'] == 'fin': S('put', x=x); self.drop(x)
        elif op == 'destroy':
            if k != 'MOLD' and not d.get('gone'):
                if r.random() < 0.4 and root and not self.configs(): self.destroy(x)
    def usable_root(self, x): return True
    def configs(self): return bool(self.C)
    def drop(self, x): self.h.pop(x, None)
    # ------------------------------------------------------------ finished molds
    def use(self, m, ok):
        r, S = self.r, self.S
        S('mdump', m=m, vers=self.vers())
        S('mvalid', m=m)
        def twice(e):           # two elements of one name: what configs of it mean is nobody's promise
            q = [x.get('name') for x in e.get('els', [])]
            if any(x['v'] == '(null)' for x in e.get('defs', [])): return True       # nor of a default never given a value
            return len(set(q)) < len(q) or any(twice(x) for x in e.get('els', []))
        if not ok or twice(self.ses.log[-2][1].get('d', {})): return
        for _ in range(r.choice([1, 1, 2])):
            c = self.fresh('c')
            a = S('gen', m=m, ver=self.vq(), c=c)
            if a['st'] == 'OK':
                self.C[c] = m
                S('dump', c=c, flags=r.random() < 0.5 or None); S('valid', c=c)
    def cfin(self):
        S = self.S
        for x in sorted(x for x in self.h if self.h[x]['k'] == 'MOLD'):
            m = self.fresh('m')
            a = S('mfin', x=x, m=m)
            if a.get('mold'):
                self.M[m] = a['st'] == 'OK'
                del self.h[x]
                yield m, a['st'] == 'OK'

def scenario(r, drv, profile, steps):
    S = Session(drv); g = MGen(r, S, profile)
    S('reset')
    x = g.fresh()
    S('mbegin', **{'as': x}); g.new(x, 'MOLD', None)
    n = 0
    plans = r.randint(*P[profile]['plans'])
    for i in range(plans):
        if S.dead or len(S.log) > steps * 2: break
        g.element(x, r.choice([0, 1, 2]))
        if r.random() < 0.2: g.free()
        if r.random() < 0.2: g.doc(x)
        g.look()
    for _ in range(r.choice([0, 1, 3, 6])):
        if S.dead: break
        g.free() if r.random() < 0.5 else g.look()
    # what is still under construction is given up, innermost first
    def giveup():
        for y in sorted((y for y in g.h if g.h[y]['st'] == 'con' and g.h[y]['k'] != 'MOLD'), key=lambda y: -int(y[1:])):
            if y in g.h: S('destroy', x=y); g.h.pop(y, None)
    if r.random() < 0.85: giveup()
    open_left = any(d['st'] == 'con' and d['k'] != 'MOLD' for d in g.h.values())
    if not open_left or r.random() < 0.5:
        for m, ok in list(g.cfin()):
            if S.dead: break
            g.use(m, ok and not open_left)
        if not open_left:
            for _ in range(r.choice([0, 2, 5])):
                if S.dead: break
                if r.random() < 0.3 and not g.C: g.free()
                else: g.look()
            for c in sorted(g.C):
                if S.dead: break
                S('dump', c=c, flags=True)
                q = S.log[-1][1].get('d', {}).get('els', [])
                for e in q[:3]:
                    if e['name'] in ('(null)',): continue
                    at = [[e['name'], 0]]
                    S('getdoc', x=c, at=at, ver=g.vq()); S('rcoll', x=c, at=at); S('defs', x=c, at=at); S('limits', x=c, at=at)
                S('getdoc', x=c, ver=g.vq())
    if not S.dead:
        giveup()
        for y in sorted(g.h, key=lambda y: -int(y[1:])):
            if g.h[y]['k'] == 'MOLD': continue
            S('put', x=y)
        for y in sorted(y for y in g.h if g.h[y]['k'] == 'MOLD'): S('destroy', x=y)
        for c in sorted(g.C): S('cfree', c=c)
        for m in sorted(g.M): S('mdump', m=m, vers=[None])
        S('end')
    return S.log
