"""Histories for the small machines: versions as text (C15) and the error text of instances (C28)."""
from gen_config import Session

# ---------------------------------------------------------------- versions
EDGE = [0, 1, 2, 9, 10, 11, 99, 100, 65535, 65536, 2**31 - 1, 2**31, 2**31 + 1, 2**32 - 2, 2**32 - 1]
BADV = ['', '.', '1', '1.', '.1', '-1.0', '1.-1', '+1.0', '1.+1', ' 1.0', '1. 0', '1 .0', '1..0', 'a.b', '1.b', 'a.1', '0x1.0', '1,0', '4294967296.0', '0.4294967296',
        '4294967295.4294967296', '99999999999999999999.1', '1.99999999999999999999', '18446744073709551616.0', '18446744073709551617.5', '\t1.0', '1\n.0', '-0.0', '1.0-', '1.0 ', '1.2.3', '1.2.', '1.2x', '01.02', '000.000', '1e1.0', '4294967295.4294967295', '0000000000000000000000001.1']
def number(r):
    x = r.random()
    if x < 0.5: return r.choice(EDGE)
    if x < 0.8: return r.randrange(0, 20)
    return r.randrange(0, 2**32)
def versions(r, drv, profile, steps):
    S = Session(drv); S('reset')
    seen = [[number(r), number(r)] for i in range(4)]
    def v():
        if r.random() < 0.5: return r.choice(seen)
        a = r.choice(seen)
        q = r.choice([[number(r), number(r)], [a[0], number(r)], [number(r), a[1]], [a[1], a[0]],
                      [max(0, min(2**32 - 1, a[0] + r.choice([-1, 0, 1]))), max(0, min(2**32 - 1, a[1] + r.choice([-1, 0, 1])))]])
        if len(seen) < 12: seen.append(q)
        return q
    for i in range(steps):
        x = r.random()
        if x < 0.35:
            a, b = v(), v()
            S('vcmp', a=a, b=b); S('vcmp', a=b, b=a)
        elif x < 0.6:
            a = v(); t = '%d.%d' % tuple(a); n = len(t)
            o = S('vprint', ver=a, size=r.choice([-1, 0, 1, 2, 3, 4, n - 1, n, n, n + 1, n + 1, n + 2, 500, 500]))
            if o.get('ok'): S('vparse', s=o['text'])
        elif x < 0.7: S('vset', a=v(), b=v())
        else:
            y = r.random()
            if y < 0.3: t = r.choice(BADV)
            elif y < 0.6: t = '%d.%d' % tuple(v())
            elif y < 0.8:
                t = list(r.choice(['%d.%d' % tuple(v()), r.choice(BADV)]))
                for k in range(r.choice([1, 1, 2])):
                    z = r.random(); p = r.randrange(len(t) + 1)
                    if z < 0.4: t.insert(p, r.choice('0123456789.-+ x'))
                    elif z < 0.7 and t: t.pop(min(p, len(t) - 1))
                    elif t: t[min(p, len(t) - 1)] = r.choice('0123456789.-+ x')
                t = ''.join(t)
            else: t = ''.join(r.choice('0123456789..') for k in range(r.choice([1, 3, 5, 12, 24])))
            S('vparse', s=t)
        if S.dead: break
    S('end')
    return S.log

def enc_versions(log):
    def one(d):
        return {k: [str(x) for x in v] if k in ('a', 'b', 'ver', 'src') else v for k, v in d.items() if v is not None}
    return [{'c': one(c), 'o': one(o)} for c, o in log], None

# ---------------------------------------------------------------- error texts
def errors(r, drv, profile, steps):
    S = Session(drv); S('reset')
    I = {}; n = 0
    def text():
        x = r.random()
        if x < 0.1: return ''
        if x < 0.3: return r.choice(['a', 'ab', 'abc', 'abcd', 'abcde', '...', '%s%n', 'no such entry: x', 'T' * 1023, 'Z' * 59, 'Z' * 60])
        return ''.join(r.choice('abcdefgh :%.') for k in range(r.choice([1, 2, 3, 4, 5, 6, 7, 8, 15, 16, 17, 31, 63, 64, 255, 256, 700])))
    for i in range(steps):
        x = r.random()
        if not I or x < 0.04 and len(I) < 3:
            n += 1; h = 'i%d' % n
            if S('iblank', i=h)['st'] == 'OK': I[h] = ''
        else:
            h = r.choice(sorted(I))
            if x < 0.3:
                v = text(); S('ierrset', i=h, v=v)
                if v: I[h] = v
            elif x < 0.4:
                if len(I[h]) < 2000:
                    a, b = text(), text(); S('ierrwrap', i=h, a=a, b=b)
                    if a + I[h] + b: I[h] = a + I[h] + b
            elif x < 0.46: S('ierrclear', i=h); I[h] = ''
            elif x < 0.62: S('ierr', i=h)
            elif x < 0.97:
                m = len(I[h])
                S('ierrcopy', i=h, size=r.choice([-1, 0, 1, 2, 3, 4, 5, 6, 7, 8, m - 4, m - 3, m - 2, m - 1, m, m, m, m + 1, m + 1, m + 2, m + 4, 64, 5000]), nosize=True if r.random() < 0.2 else None)
            else: S('ifree', i=h); del I[h]
        if S.dead: break
    for h in sorted(I): S('ifree', i=h)
    S('end')
    return S.log

def enc_plain(log):
    def one(d): return {k: v for k, v in d.items() if v is not None}
    return [{'c': one(c), 'o': one(o)} for c, o in log], None
