"""Translation between the driver's vocabulary and the specification's.

Versions become integers that keep their order (1.0 is 1000, "none" is 0); values become
[s |-> canonical text, n |-> rank among the numbers of the trace, x |-> rendered text]; everything
else passes through. The translation is a renaming: it decides nothing."""
import math

VER_KEYS = {'ver', 'intro', 'depr', 'a', 'b'}

def canon(t, v):
    if t == 'INTEGER': return str(int(v))
    if t == 'FLOAT': return '%.17g' % float(v)
    return v
def rendered(t, v):
    if t == 'INTEGER': return str(int(v))
    if t == 'FLOAT': return '%f' % float(v)
    if t == 'BOOLEAN': return 'True' if v == 'true' else 'False'
    return v
def number(t, v):
    if t == 'INTEGER': return float(int(v))
    if t == 'FLOAT': return float(v)
    return None

class Names:
    """Collects versions and numbers of a trace, then renames them."""
    def __init__(self):
        self.vers, self.nums = {(1, 0)}, {0.0}
    def seal(self):
        lo = sorted(v for v in self.vers if v < (1, 0) and v != (0, 0))
        hi = sorted(v for v in self.vers if v >= (1, 0))
        self.vmap = {(0, 0): 0}
        for i, v in enumerate(lo): self.vmap[v] = 1000 - len(lo) + i
        for i, v in enumerate(hi): self.vmap[v] = 1000 + i
        self.back = {n: v for v, n in self.vmap.items()}
        q = sorted(self.nums); z = q.index(0.0)
        self.nmap = {x: 1000000 + i - z for i, x in enumerate(q)}
    def v(self, x):
        if x is None: return 0
        x = tuple(x)
        if x not in self.vmap: return -1
        return self.vmap[x]

def collect(o, N):
    """Every version and number that occurs in a (nested) command or answer."""
    if isinstance(o, dict):
        t = o.get('t')
        for k, v in o.items():
            if k in VER_KEYS and isinstance(v, (list, tuple)) and len(v) == 2 and all(isinstance(q, int) for q in v):
                N.vers.add(tuple(v))
            elif k == 'n' and isinstance(v, int): N.nums.add(float(v))
            elif k in ('v', 'lo', 'hi', 'n') and isinstance(v, str):
                try: N.nums.add(float(v))
                except ValueError: pass
                try: N.nums.add(float(int(v)))
                except (ValueError, OverflowError): pass
            elif k == 'vers':
                for q in v:
                    if q: N.vers.add(tuple(q))
            else:
                collect(v, N)
    elif isinstance(o, (list, tuple)):
        for q in o: collect(q, N)

def value(t, v, N):
    n = number(t, v)
    return {'s': canon(t, v), 'n': N.nmap[n] if n is not None and not math.isnan(n) else 0, 'x': rendered(t, v)}

ONE = [1, 0]
def bydate(q):
    return sorted(q, key=lambda x: x['intro'])
def docs(d, N):
    return bydate([{'v': x['v'], 'intro': N.v(x.get('intro') or ONE)} for x in d.get('docs', [])])
def restr(r, N):
    t = r['rt']
    o = {'rt': t, 'n': 0, 'lo': 0, 'hi': 0, 's': '', 'intro': N.v(r.get('intro') or ONE),
         'depr': N.v(r.get('depr')), 'docs': docs(r, N)}
    if t in ('MIN', 'MAX'): o['n'] = int(float(r['n']))
    elif t == 'RANGE': o['lo'], o['hi'] = N.nmap[float(r['lo'])], N.nmap[float(r['hi'])]
    elif t == 'NUMERIC': o['lo'] = N.nmap[float(r['n'])]
    elif t == 'ENUM': o['s'] = r['s']
    return o
def element(e, N):
    t = e.get('t', 'UNKNOWN')
    return {'k': e['k'], 'name': e['name'], 't': t,
            'defs': bydate([{'v': value(t, d['v'], N), 'intro': N.v(d.get('intro') or ONE)} for d in e.get('defs', [])]),
            'rest': [restr(r, N) for r in e.get('rest', [])],
            'intro': N.v(e.get('intro') or ONE), 'depr': N.v(e.get('depr')),
            'docs': docs(e, N), 'els': [element(x, N) for x in e.get('els', [])]}
def mold(m, N):
    return {'els': [element(e, N) for e in m['els']], 'docs': docs(m, N)}

PARSE_BOOL = {'0': 'false', '1': 'true', 't': 'true', 'T': 'true', 'f': 'false', 'F': 'false'}
def c_int(s):
    import re
    m = re.match(r'[ \t\n]*([+-]?\d+)', s)
    if not m: return None
    n = int(m.group(1))
    return max(-2**63, min(2**63 - 1, n))
def c_float(s):
    import re
    m = re.match(r'[ \t\n]*([+-]?(\d+(\.\d*)?|\.\d+)([eE][+-]?\d+)?)', s)
    return float(m.group(1)) if m else None
def parsed(s, N):
    """What a text denotes for each value type (dc_set_value)."""
    r = {}
    b = PARSE_BOOL.get(s[:1]); i = c_int(s); f = c_float(s)
    z = {'s': '', 'n': 0, 'x': ''}
    def num(x):
        return N.nmap[x]
    r['BOOLEAN'] = {'ok': b is not None, 'v': value('BOOLEAN', b, N) if b else z}
    r['INTEGER'] = {'ok': i is not None, 'v': value('INTEGER', i, N) if i is not None else z}
    r['FLOAT'] = {'ok': f is not None, 'v': value('FLOAT', repr(f), N) if f is not None else z}
    return r
def collect_parsed(s, N):
    i, f = c_int(s), c_float(s)
    if i is not None: N.nums.add(float(i))
    if f is not None: N.nums.add(f)

def command(c, N):
    op = c['op']; o = {}
    for k, v in c.items():
        if v is None or k.startswith('_'): continue
        if k == 'mold': o[k] = mold(v, N)
        elif k == 'v' and op == 'setv' and 'n' in c:
            w = v[:c['n']]; o['v'] = {'s': w, 'n': 0, 'x': w}
            if c['t'] == 'ANY': o['any'] = parsed(v, N)
        elif k == 'n' and op == 'setv': continue
        elif k in VER_KEYS and isinstance(v, (list, tuple)): o[k] = N.v(v)
        elif k == 'vers': o[k] = [N.v(x) for x in v]
        elif k == 'v' and 't' in c:
            if c['t'] == 'ANY':
                o['v'] = {'s': v, 'n': 0, 'x': v}; o['any'] = parsed(v, N)
            else: o[k] = value(c['t'], v, N)
        elif op == 'addrest': continue
        elif op in ('rnum', 'rrange', 'rvadd', 'addmin', 'addmax') and k in ('n', 'lo', 'hi'): o[k] = value('FLOAT', v, N)
        else: o[k] = v
    if op in ('gen', 'setdef', 'getdef', 'upd', 'getdoc') and 'ver' not in o: o['ver'] = 0
    if op == 'adddeftext': o['any'] = parsed(c['v'], N); o['v'] = {'s': c['v'], 'n': 0, 'x': c['v']}
    if op == 'addkv': o.setdefault('doc', 'doc')
    if op == 'updres': o['v'] = {'s': c['v'], 'n': 0, 'x': c['v']}; o['any'] = parsed(c['v'], N)
    if op in ('dump', 'valid'): o['x'] = c['c']
    if op == 'dump': o['flags'] = bool(c.get('flags', False))
    if op in ('adddef', 'addkv', 'addmin', 'addmax', 'adddocv', 'adddeftext', 'rvadd') and 'intro' not in o: o['intro'] = 1000
    if op == 'addrest': o.update(restr(c, N)); o['x'] = c['x']; o['op'] = op
    return o

def answer(a, N):
    """Answers: versions renamed, nulls made explicit."""
    if isinstance(a, dict):
        r = {}
        for k, v in a.items():
            if k in VER_KEYS and isinstance(v, (list, tuple)): r[k] = N.v(v)
            elif v is None: r[k] = '(err)'
            elif isinstance(v, float) and v == int(v): r[k] = int(v)
            else: r[k] = answer(v, N)
        return r
    if isinstance(a, (list, tuple)): return [answer(x, N) for x in a]
    if a is None: return '(err)'
    return a

def encode(log):
    """log: list of (command, answer) of the driver -> list of {'c','o'} lines for the specification."""
    N = Names()
    for c, o in log:
        collect(c, N); collect(o, N)
        if c.get('t') == 'ANY' or c['op'] in ('updres', 'adddeftext'): collect_parsed(c['v'], N)
    N.seal()
    return [{'c': command(c, N), 'o': answer(o, N)} for c, o in log], N
