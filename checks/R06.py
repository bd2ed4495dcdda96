"""Options: a C record with a field of every option type is configured through the real option code (a package loaded into the
interpreter) with every value of a set, in every sequence and combination within the bounds, and what is stored, returned, refused
and left alone is compared with a model; the same for the options of Interp, Sqlite and Socket objects."""
import itertools, json, math, os, struct
from mc.core import Ctx, Case, VERIF

HERE = os.path.dirname(os.path.abspath(__file__))
INT = {'i8': (8, 1), 'i16': (16, 1), 'i32': (32, 1), 'i64': (64, 1), 'u8': (8, 0), 'u16': (16, 0), 'u32': (32, 0), 'u64': (64, 0), 'sz': (64, 0), 'ss': (64, 1), 'ip': (64, 1),
       'up': (64, 0), 'in': (32, 1), 'ui': (32, 0), 'lo': (64, 1), 'ul': (64, 0), 'sh': (16, 1), 'us': (16, 0), 'abcd': (32, 1), 'abce': (32, 1), 'ab': (32, 1)}
FLT = {'fl': '<f', 'db': '<d', 'nu': '<d', 'ld': None}
TIME = {'tw': '<q', 'td': '<d', 'tt': '<q'}
EN = ['red', 'green', 'grey', 'blue']
ENUM = {'e1': (1, ''), 'e2': (2, ''), 'e4': (4, 'nocase'), 'e8': (8, 'exact')}
BX = ['b%d' % i for i in range(9)] + ['c%d' % i for i in range(9, 16)] + ['d%d' % i for i in range(16, 32)] + ['e%d' % i for i in range(32, 64)]
BITS = {'b1': (1, ['b%d' % i for i in range(7)] + ['last7'], ''), 'b2': (2, BX[:16], 'nocase'), 'b4': (4, BX[:32], ''), 'b8': (8, BX, '')}
FIELDS = ['bo'] + [k for k in INT] + list(FLT) + list(TIME) + ['st', 'ds', 'sk', 'va', 'ob', 'ar', 're', 'fu', 'uo'] + list(ENUM) + list(BITS) + ['sub', 'init', 'rdo', 'sb', 'ca']
SUBT = {'n': 'in', 'u': 'u8', 's': 'st', 'f': 'bo'}

PRO = '''load(%s);
var DB=new Sqlite(':memory:');
function FN(a,b) { return 1; }
function FBAD(a:string,b:string) { return 1; }
function D(f) { var o=Oconf(); delete o[f]; return JSON.stringify(o); }
function S(f,v,raw) { var b=D(f),c='',q={}; q[f]=v; try { Oconf(q); c='='; } catch(e) { c='!'; } puts(c, JSON.stringify(Oget(f)), raw?Oraw(f):'', D(f)===b, Oguard()); }
function N(p,v) { var c=''; try { Oset(p,v); c='='; } catch(e) { c='!'; } puts(c, Oguard()); }
function G(p) { var c=''; try { c=JSON.stringify(Oget(p)); } catch(e) { c='!'; } puts(c); }
function K(x) { var c=''; try { c=Oconf(x); c='='; } catch(e) { c='!'; } puts(c, X(), Oguard()); }
function P(x) { var c=''; try { c=''+Oproc(x); } catch(e) { c='!'; } puts(c, X(c==='!'), Oguard()); }
var Z=Oconf(), ZJ={}, CU={e1:1,e2:1,e4:1,e8:1,b1:1,b2:1,b4:1,b8:1,ca:1};   // Lists and bits are not cleared.
 for (var k in Z) ZJ[k]=JSON.stringify(Z[k]);
function X(c=false) { var o=Oconf(), s=''; for (var k in o) { if (c && CU[k]) continue; var t=JSON.stringify(o[k]); if (t!==ZJ[k]) s+=k+'='+t+' '; } return s; }
'''


class Bad(Exception):
    pass


class V:
    """A value: its program text, kind and contents."""
    def __init__(self, js, kind, x=None):
        self.js, self.kind, self.x = js, kind, x


def num(x):
    if isinstance(x, float) and x != x: return V('NaN', 'n', x)
    if isinstance(x, float) and math.isinf(x): return V(('-' if x < 0 else '') + 'Infinity', 'n', x)
    return V(repr(x), 'n', float(x))


def js(s): return json.dumps(s)


def jnum(x):
    if x != x or math.isinf(x): return 'null'
    if x == int(x) and -2.0 ** 63 <= x < 2.0 ** 63: return '%d' % int(x)
    return '%.15g' % x


NUMS = [num(x) for x in (0, 1, -1, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536, 2147483647, 2147483648, -2147483648, -2147483649, 4294967295, 4294967296,
        9007199254740992, 4611686018427387904, 9223372036854774784, 9223372036854775808, -9223372036854775808, -9223372036854777856, 18446744073709551616, 1.5, -1.5, 254.75, float('nan'), float('inf'), float('-inf'), 1e300)]
STRS = [V(js(s), 's', s) for s in ('', 'a', '12345', '123456', 'red', 'r', 'gre', 'grey', 'green', 'RED', 'bluex', 'b0', 'b', 'b8', 'b1,b3', '=b2', '=', '!b0', '=!b1', 'b1,!b1', 'b2,zz,b3', 'last7', 'l', 'c15', 'C9', 'd31',
        'e32', 'e63,e33', 'e3', 'true', '5', '2020-01-02 03:04:05', '2020-01-02T03:04:05', '2020-01-02', 'x' * 300, '\u20acuro')]
OTHER = [V('true', 'b', True), V('false', 'b', False), V('null', 'z'), V('[]', 'a', []), V('{}', 'o', {}), V('/x/', 're'), V('FN', 'f', 1), V('FBAD', 'f', 0), V('DB', 'db'), V('File', 'F')]


def arr(l): return V('[%s]' % ','.join(v.js for v in l), 'a', l)


def obj(d): return V('{%s}' % ','.join('%s:%s' % (k, v.js) for k, v in d.items()), 'o', d)


B = {'t': V('true', 'b', True), 'f': V('false', 'b', False)}
ARRS = [arr([num(1), num(2), num(3)]), arr([num(-2147483648), num(2147483647), num(0)]), arr([num(1), num(2)]), arr([num(1), num(2), num(3), num(4)]), arr([num(1), STRS[1], num(3)]), arr([num(1), num(2), num(2147483648)]),
        arr([STRS[11]]), arr([V('"="', 's', '='), V('"b2"', 's', 'b2'), V('"b3"', 's', 'b3')]), arr([V('"!b0"', 's', '!b0'), V('"b4"', 's', 'b4')]), arr([V('"b1"', 's', 'b1'), V('"qq"', 's', 'qq')]),
        arr([V('"c9"', 's', 'c9'), V('"d20"', 's', 'd20'), V('"e40"', 's', 'e40')]), arr([V('"c15"', 's', 'c15')]), arr([V('"b0"', 's', 'b0'), V('"c10"', 's', 'c10'), V('"d31"', 's', 'd31')])]
OBJS = [obj({'b3': B['t'], 'b0': B['f']}), obj({'b8': B['t']}), obj({'c12': B['t'], 'b8': B['f']}), obj({'d31': B['t'], 'b1': B['t']}), obj({'e33': B['t'], 'd17': B['t']}), obj({'e63': B['f'], 'b6': B['t']}), obj({'b1': num(1)}), obj({'zz': B['t']}),
        obj({'n': num(3), 'f': B['t']}), obj({'n': num(2147483648)}), obj({'u': num(200), 's': STRS[2]}), obj({'f': num(1), 'n': num(9)}), obj({'a': num(1)}), obj({'n': num(4), 'q': num(1)}), obj({'s': V('null', 'z')})]
ALL = NUMS + STRS + OTHER + ARRS + OBJS


def text(v):
    """JSON text of a value stored as it is."""
    k = v.kind
    if k == 'n': return jnum(v.x)
    if k == 's': return jstr(v.x)
    if k == 'b': return 'true' if v.x else 'false'
    if k in 'zu': return 'null'
    if k == 'a': return '[ ' + ', '.join(text(x) for x in v.x) + ' ]' if v.x else '[]'
    if k == 'o': return '{ ' + ', '.join('"%s":%s' % (n, text(v.x[n])) for n in sorted(v.x)) + ' }' if v.x else '{}'
    return None


def jstr(s): return json.dumps(s)


def pick(names, s, flags):
    """The one entry named by s or by a unique beginning of it."""
    f = (lambda x: x.lower()) if 'nocase' in flags else (lambda x: x)
    ex = [i for i, n in enumerate(names) if f(n) == f(s)]
    if ex: return ex[0]
    if 'exact' in flags or s == '': raise Bad()
    pre = [i for i, n in enumerate(names) if f(n).startswith(f(s))]
    if len(pre) != 1: raise Bad()
    return pre[0]


def ptime(s):
    import calendar, time
    for f in ('%Y-%m-%d %H:%M:%S', '%Y-%m-%dT%H:%M:%S', '%Y-%m-%d'):
        try: return calendar.timegm(time.strptime(s, f))
        except ValueError: pass
    raise Bad()


class Skip(Exception):
    pass


class Rec:
    def __init__(self):
        self.v = {}
        for f in FIELDS: self.v[f] = self.zero(f)

    def zero(self, f):
        if f == 'sub': return {'n': 0, 'u': 0, 's': None, 'f': False}
        if f == 'ca': return [0, 0, 0]
        if f in BITS or f in ENUM or f in INT or f in TIME or f in ('init', 'rdo'): return 0
        if f in FLT: return 0.0
        if f == 'bo': return False
        if f in ('ds', 'sb'): return ''
        return None

    def conv(self, f, v, old):
        """What field f holds after v was given, or Bad."""
        k = v.kind
        if f in INT or f in ('init', 'rdo', 'in'):
            if k != 'n' or v.x != v.x or math.isinf(v.x): raise Bad()
            n = int(v.x)
            bits, sg = INT.get(f, (32, 1))
            if v.x < 0 and not sg and bits == 64: raise Bad()
            lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if sg else (0, (1 << bits) - 1)
            if bits == 64 and not sg: hi = (1 << 63) - 1        # What a signed 64 bit number holds.
            if not lo <= n <= hi: raise Bad()
            return n
        if f == 'bo':
            if k != 'b': raise Bad()
            return v.x
        if f in FLT:
            if k != 'n' or v.x != v.x: raise Bad()
            if f == 'fl':
                try: return struct.unpack('<f', struct.pack('<f', v.x))[0]
                except OverflowError: return math.copysign(float('inf'), v.x)
            return v.x
        if f in TIME:
            if k == 'n':
                if v.x != v.x or abs(v.x) > 1e11: raise Skip()
                return v.x if f == 'td' else int(v.x)
            if k != 's': raise Bad() if k not in 'zu' else Skip()
            if v.x in ('5', '12345', '123456'): raise Skip()
            t = ptime(v.x)
            return t if f == 'tt' else t * 1000
        if f in ('st', 'sk'):
            if k in 'zu': return None
            if k in ('f', 're', 'F', 'db'): raise Skip()
            if k != 's': raise Bad()
            return v.x
        if f in ('ds', 'sb'):
            if k in 'zu': return ''
            if k in ('f', 're', 'F', 'db'): raise Skip()
            if k != 's': raise Bad()
            if f == 'sb' and len(v.x.encode()) > 5: raise Bad()
            return v.x
        if f in ('va', 'ob', 'ar', 're', 'fu', 'uo'):
            if k in 'zu': return None
            if f == 'ob' and k not in ('a', 'o', 're', 'f', 'db', 'F'): raise Bad()
            if f == 'ar' and k != 'a': raise Bad()
            if f == 're' and k != 're': raise Bad()
            if f == 'fu':
                if k == 'F': raise Skip()
                if k != 'f' or not v.x: raise Bad()
            if f == 'uo' and k != 'db': raise Bad()
            return v
        if f in ENUM:
            if k in ('f', 're', 'F', 'db'): raise Skip()
            if k != 's': raise Bad()
            return pick(EN, v.x, ENUM[f][1])
        if f in BITS:
            size, names, fl = BITS[f]
            if k in ('f', 're', 'F', 'db'): raise Skip()
            if k == 's':
                s, m = v.x, old
                eq = s.startswith('=')
                if eq: s, m = s[1:], 0
                for w in (s.split(',') if s else []):
                    if w.startswith('!'):
                        if eq: raise Bad()
                        m &= ~(1 << pick(names, w[1:], fl))
                    else: m |= 1 << pick(names, w, fl)
                return m
            if k == 'o':
                m = old
                for n in sorted(v.x):
                    i = pick(names, n, fl)
                    if v.x[n].kind != 'b': raise Bad()
                    m = m | 1 << i if v.x[n].x else m & ~(1 << i)
                return m
            if k != 'a': raise Bad()
            m = 0
            for j, w in enumerate(v.x):
                if w.kind != 's': raise Bad()
                s = w.x
                if j == 0:
                    if s == '=': continue
                    m = old
                if s.startswith('!'): m &= ~(1 << pick(names, s[1:], fl))
                else: m |= 1 << pick(names, s, fl)
            return m
        raise AssertionError(f)

    def set(self, f, v):
        if f == 'sub':
            if v.kind in 'zu':
                self.v['sub'] = self.zero('sub')
                return
            if v.kind in ('F', 'f', 're', 'db'): raise Skip() if v.kind == 'F' else Bad()
            if v.kind != 'o': raise Bad()
            for n in sorted(v.x):
                if n not in SUBT: raise Bad()
                self.v['sub'][n] = self.conv(SUBT[n], v.x[n], None)
            return
        if f == 'ca':
            if v.kind != 'a' or len(v.x) != 3: raise Bad()
            for i, x in enumerate(v.x): self.v['ca'][i] = self.conv('in', x, None)
            return
        self.v[f] = self.conv(f, v, self.v[f])

    def get(self, f, x=None):
        if x is None: x = self.v[f]
        if f == 'sub': return '{ "f":%s, "n":%d, "s":%s, "u":%d }' % ('true' if x['f'] else 'false', x['n'], 'null' if x['s'] is None else jstr(x['s']), x['u'])
        if f == 'ca': return '[ %d, %d, %d ]' % tuple(x)
        if f in BITS:
            l = ['"%s"' % n for i, n in enumerate(BITS[f][1]) if x >> i & 1]
            return '[ ' + ', '.join(l) + ' ]' if l else '[]'
        if f in ENUM: return '"%s"' % EN[x]
        if f in INT or f in ('init', 'rdo'): return jnum(float(x))
        if f in FLT: return jnum(x)
        if f == 'bo': return 'true' if x else 'false'
        if f in TIME:
            import time
            s = x if f == 'tt' else math.floor(x / 1000.0)
            return time.strftime('"%Y-%m-%d %H:%M:%S"' if f == 'tt' else '"%Y-%m-%dT%H:%M:%S"', time.gmtime(s))
        if x is None: return 'null'
        if isinstance(x, str): return jstr(x)
        return text(x)

    def raw(self, f):
        x = self.v[f]
        if f in INT: b = (x & ((1 << 64) - 1)).to_bytes(8, 'little')[:INT[f][0] // 8]
        elif f in BITS: b = x.to_bytes(8, 'little')[:BITS[f][0]]
        elif f in ENUM: b = x.to_bytes(8, 'little')[:ENUM[f][0]]
        elif f == 'bo': b = bytes([x])
        elif f in FLT and FLT[f]: b = struct.pack(FLT[f], x) if abs(x) < 3e38 or f != 'fl' else struct.pack('<f', math.copysign(float('inf'), x))
        elif f in TIME: b = struct.pack(TIME[f], x)
        elif f == 'ca': b = struct.pack('<3i', *x)
        else: return None
        return b.hex()

    def dump(self):
        z = Rec0
        return ''.join('%s=%s ' % (f, self.get(f)) for f in sorted(self.v) if self.get(f) != z.get(f))


Rec0 = Rec()


def step(r, f, v):
    """One conf of one option: the line the program prints, or Skip."""
    if f in ('init', 'rdo'): c = '!'
    else:
        try:
            r.set(f, v)
            c = '='
        except Bad: c = '!'
    g = r.get(f)
    if g is None: g = None          # Functions and objects have no fixed text.
    raw = r.raw(f)
    return 'S(%s,%s,%s);' % (js(f), v.js, 'true' if raw else 'false'), c, g, raw or ''


def seqcase(key, seq):
    r, src, exp = Rec(), ['Onew();'], []
    try:
        for f, v in seq:
            s, c, g, raw = step(r, f, v)
            src.append(s)
            exp.append((c, g, raw))
    except Skip: return None

    def judge(got):
        ls = got.split('\n')
        if len(ls) != len(exp): return 'expected %d lines got %r' % (len(exp), got[:300])
        for i, (l, (c, g, raw)) in enumerate(zip(ls, exp)):
            want = '%s %s %s true ' % (c, g if g is not None else '*', raw)
            ok = l.startswith(c + ' ') and l.endswith(' %s true ' % raw) if g is None else l == want
            if not ok and l + ' ' == want: ok = True
            if not ok: return 'step %d (%s): expected %r got %r' % (i, seq[i][0], want[:300], l[:300])
        return None
    return Case(key, ' '.join(src), judge, len(seq))


def good(f):
    """Values field f accepts, two or three of them different from each other, and one refused."""
    r, g, b = Rec(), [], []
    seen = set()
    for v in ALL:
        r2 = Rec()
        try: r2.set(f, v)
        except Bad:
            b.append(v)
            continue
        except Skip: continue
        t = r2.get(f)
        if t not in seen or t is None: seen.add(t), g.append(v)
    return g, b


def singles(deep):
    for f in FIELDS:
        for i, v in enumerate(ALL):
            c = seqcase('%s=%s #%d' % (f, v.js[:40], i), [(f, v)])
            if c: yield c


def pairs(deep):
    for f in FIELDS:
        g, b = good(f)
        g = g[:14] if not deep else g
        b = b[:2] + b[len(b) // 2:len(b) // 2 + 1] + b[-1:] if not deep else b[::3]
        for v in g:
            for w in g + b:
                c = seqcase('%s=%s;%s' % (f, v.js[:40], w.js[:40]), [(f, v), (f, w)])
                if c: yield c
        if deep:
            for t in itertools.product(g[:8] + b[:2], repeat=3):
                c = seqcase('%s=%s' % (f, ';'.join(x.js[:20] for x in t)), [(f, x) for x in t])
                if c: yield c
    # Two fields after each other, and one back to another value.
    sel = {}
    for f in FIELDS:
        g, b = good(f)
        sel[f] = g[1:] or g
    for f in FIELDS:
        for h in FIELDS:
            if f != h and sel[f] and sel[h]:
                c = seqcase('%s then %s' % (f, h), [(f, sel[f][0]), (h, sel[h][-1]), (f, sel[f][-1]), (h, sel[h][0])])
                if c: yield c


def multi(deep):
    """Objects of several options: set in the order of their names up to the first that is refused."""
    def run(r, q, init):
        cnt = 0
        for f in sorted(q):
            if f not in r.v or f == 'rdo' or (f == 'init' and not init): raise Bad()
            r.set(f, q[f])
            cnt += 1
        return cnt
    sel = {}
    for f in FIELDS:
        g, b = good(f)
        g = [v for v in g if v.kind not in ('f', 're', 'db', 'F')]
        if g: sel[f] = ((g[1:] or g)[0], b[0] if b else None)
    names = sorted(sel)
    sets = []
    for f, h in itertools.combinations(names, 2):
        for x, y in ((0, 0), (0, 1), (1, 0)):
            if sel[f][x] is not None and sel[h][y] is not None: sets.append({f: sel[f][x], h: sel[h][y]})
    sets += [{f: sel[f][0] for f in names[i:i + k] if f not in ('init', 'rdo')} for i in range(0, len(names), 3) for k in (3, 9, 60)]
    sets += [{'bo': sel['bo'][0], n: num(1)} for n in ('zz', 'A', 'i', 's', '', 'abc', 'a', 'bo2', 'init', 'rdo')]
    if not deep: sets = sets[::5] + sets[-30:]
    for n, q in enumerate(sets):
        o = '{%s}' % ','.join('%s:%s' % (js(k), v.js) for k, v in q.items())
        try:
            r = Rec()
            try: c = '=' if run(r, q, 0) >= 0 else ''
            except Bad: c = '!'
            r2 = Rec()
            try: c2 = str(run(r2, q, 1))
            except Bad:
                c2 = '!'
                r2 = Rec()
        except Skip: continue
        yield Case('options %s %d' % (o[:100], n), 'Onew(); K(%s); P(%s);' % (o, o), '%s %s \n%s %s ' % (c, r.dump(), c2, r2.dump()), 2)
        if n % 4 == 0 or deep:
            yield Case('again %s %d' % (o[:100], n), 'Onew(); K({n1:1}); K(%s); Oclear(); puts(X(true));' % o, '! %s \n%s %s \n%s' % (Rec().dump(), c, r.dump(), Rec().dump()), 2)


def names(deep):
    """Options by the beginning of their names, parts of records and elements of arrays."""
    ns = sorted(FIELDS)
    words = {n[:i] for n in FIELDS for i in range(1, len(n) + 1)} | {n + 'x' for n in FIELDS} | {'', '_', 'B0', 'Bo'}
    for w in sorted(words):
        if w == '': continue
        m = [n for n in ns if n == w] or [n for n in ns if n.startswith(w)]
        f = m[0] if len(m) == 1 else None
        r = Rec()
        yield Case('name %s' % w, 'Onew(); G(%s);' % js(w), r.get(f) if f else '!', 1)
        if f in INT: yield Case('set by %s' % w, 'Onew(); N(%s,5); G(%s); K({%s:6}); G(%s);' % (js(w), js(f), js(w), js(f)), None or chk(f), 3)
        if f is None and w not in ('_',): yield Case('set no %s' % w, 'Onew(); var b=D(""); N(%s,5); var q={}; q[%s]=5; try { Oconf(q); puts("="); } catch(e) { puts("!"); }; puts(D("")===b);' % (js(w), js(w)), '! \n!\ntrue', 2)
    for i in ('0', '1', '2', '3', '4', '5', '17', '1000000', '4294967296', '-1', 'x', '', '1x', ' 1'):
        ok = i in ('0', '1', '2')
        if i in ('1x', ' 1'): continue
        a = [0, 0, 0]
        if ok: a[int(i)] = -7
        yield Case('element %s' % i, 'Onew(); G("ca[%s]"); N("ca[%s]",-7); G("ca[%s]"); G("ca");' % (i, i, i), '%s\n%s \n%s\n%s' % ('0' if ok else '!', '=' if ok else '!', '-7' if ok else '!', '[ %d, %d, %d ]' % tuple(a)), 4)
        yield Case('element of other %s' % i, 'Onew(); G("i32[%s]"); N("i32[%s]",1); N("ar[%s]",1); N("zz[%s]",1); G("i32");' % (i, i, i, i), '!\n! \n! \n! \n0', 4)
    for p, v, g in [('n', '5', '5'), ('n', '2147483648', None), ('n', '"x"', None), ('u', '255', '255'), ('u', '256', None), ('s', '"hi"', '"hi"'), ('s', '5', None), ('f', 'true', 'true'), ('f', '1', None), ('zz', '1', None), ('', '1', None), ('n.n', '1', None)]:
        first = {'n': '0', 'u': '0', 's': 'null', 'f': 'false'}.get(p, '!')
        if p == '': continue
        yield Case('part %s=%s' % (p, v), 'Onew(); G("sub.%s"); N("sub.%s",%s); G("sub.%s");' % (p, p, v, p), '%s\n%s \n%s' % (first, '=' if g else '!', g or first), 3)
        yield Case('part of other %s=%s' % (p, v), 'Onew(); var b=D(""); G("i32.%s"); N("va.%s",%s); N("zz.%s",%s); N(".%s",%s); puts(D("")===b);' % (p, p, v, p, v, p, v), '!\n! \n! \n! \ntrue', 4)
    for q, n in [('{}', 0), ('{a:1}', None), ('{b:1}', None), ('{c:1}', None), ('{b:5,c:6}', '2 1,5,6'), ('{a:4,b:5,c:6}', '3 4,5,6'), ('{a:4,b:5}', None), ('{a:"x",b:5,c:6}', None), ('{b:5,c:"x"}', None), ('{b:5,c:6,d:7}', None)]:
        yield Case('required %s' % q, 'try { puts(Oreq(%s)); } catch(e) { puts("!"); };' % q, n or '!', 1)
        # What was given to one call is not counted for the next.
        yield Case('required after %s' % q, 'try { Oreq({b:1,c:2}); Oreq(%s); puts("="); } catch(e) { puts("!"); }; try { Oreq({a:1}); puts("="); } catch(e) { puts("!"); };' % q, ('=' if n else '!') + '\n!', 3)
    fs = ['bo', 'i8', 'u8', 'st', 'sub', 'b4', 'i16']
    vals = {'bo': 'true', 'i8': '1', 'u8': '1', 'st': '"x"', 'sub': '{n:1}', 'b4': '"b1"', 'i16': '2'}
    for k in range(0, 4):
        for sel in itertools.combinations(fs, k):
            q = '{%s}' % ','.join('%s:%s' % (f, vals[f]) for f in sel)
            import fnmatch
            pats = ['*', 'i*', '?8', 'bo', 'b4', 'zz']
            yield Case('changed %s' % q, 'Oproc(%s); puts(%s);' % (q, ','.join('Ochanged(%s)' % js(p) for p in pats)), ' '.join(str(sum(fnmatch.fnmatchcase(f, p) for f in sel)) for p in pats), 2)


def chk(f):
    r = Rec()
    r.v[f] = 6
    return '= \n5\n= %s \n6' % r.dump()


# ---------------------------------------------------------------- the options of real objects
# name: type, how (- may change, i only when created, r never, s not in a safe interpreter, o left out: changes what the program prints)
INTERP = '''args array i,asserts bool o,assertMode enum:log|puts|throw -,autoFiles array -,busyInterval int -,confFile string is,coverage bool -,interactive bool i,hasOpenSSL bool i,historyFile string s,
isSafe bool i,jsppChars string -,jsppCallback func -,lockTimeout int -,lockDown string s,log bits -,maxDepth int s,maxDumpStack uint s,maxDumpArgs uint s,maxArrayList uint s,maxIncDepth int s,
maxInterpDepth int s,maxUserObjs int s,maxOpCnt int is,memDebug int -,memLeakCnt int is,name string -,noAutoLoad bool s,noCheck bool s,noConfig bool i,noError bool s,noES6 bool -,noEval bool i,noInput bool s,
noLoad bool s,noNetwork bool s,noStderr bool s,noSubInterps bool s,onEval func -,onExit func i,pkgDirs array -,profile bool -,retValue value r,safeMode enum:none|read|write|writeRead|lockdown i,safeReadDirs array i,
safeWriteDirs array i,safeExecPattern string i,scriptStr string i,scriptFile string -,stdinStr string -,stdoutStr string -,subthread bool is,traceCall bits -,traceOp int -,tracePuts bool -,typeCheck bits -,typeWarnMax int -,udata object -,testMode uint o'''
SQLITE = '''bindWarn bool i,debug bits -,echo bool -,errCnt int r,forceInt bool -,lastInsertId u64 -,load bool -,mutex enum:default|none|full i,name string i,noConfig bool i,noCreate bool i,noJsonConv bool -,
onAuth func -,onBusy func -,onCommit func -,onNeedCollate func -,onProfile func -,onProgress func -,onRollback func -,onTrace func -,onUpdate func -,onWalHook func -,progressSteps uint -,readonly bool i,maxRegexCache int -,
sortCnt int r,stepCnt int r,stmtCacheCnt int r,timeout int -,udata object -,version string r'''
BITN = {'log': ['bug', 'assert', 'debug', 'trace', 'test', 'info', 'warn', 'error', 'parse'], 'traceCall': ['funcs', 'cmds', 'new', 'return', 'args', 'notrunc', 'noparent', 'full', 'before'],
        'typeCheck': ['noreturn', 'noundef', 'nowith', 'builtins', 'funcdecl'], 'debug': None}


def table(t):
    out = []
    for l in t.replace('\n', '').split(','):
        n, ty, how = l.split(' ')
        out.append((n, ty, how))
    return out


OPRO = '''var K;
function mk(w,o) { return w==='I' ? new Interp(o) : new Sqlite(':memory:',o); }
function DD(x,f) { var o=x.conf(); delete o[f]; delete o.lastInsertId; delete o.retValue; return JSON.stringify(o); }
function T(w,f,v,o=false) { var x=mk(w,{}), b=DD(x,f), c='', q={}, g=JSON.stringify(x.conf(f)); q[f]=v; try { x.conf(q); c='='; } catch(e) { c='!'; }; var s=o||DD(x,f)===b, h=JSON.stringify(x.conf(f)), h2=JSON.stringify(x.conf()[f]); puts(c, c==='!'?h===g:h, s, h===h2); delete x; }
function C(w,f,v) { var q={}, c=''; q[f]=v; try { var x=mk(w,q); c='='; puts(c, JSON.stringify(x.conf(f)), JSON.stringify(x.conf(f))); delete x; } catch(e) { puts('!'); } }
'''


def conv(ty, n, v):
    """JSON text of the option's new value, or Bad."""
    r = Rec()
    k = v.kind
    if ty in ('int', 'uint', 'u64', 'bool', 'string', 'func', 'array', 'object'):
        f = {'int': 'in', 'uint': 'ui', 'u64': 'u64', 'bool': 'bo', 'string': 'st', 'func': 'va', 'array': 'ar', 'object': 'ob'}[ty]
        if ty == 'func':
            if k in 'zu': return 'null'
            if k in ('f', 'F', 're', 'db'): raise Skip()
            raise Bad()
        if ty == 'object' and k == 's': raise Skip()
        r.v[f] = r.conv(f, v, None)
        t = r.get(f)
        if t is None: raise Skip()
        return t
    if ty.startswith('enum:'):
        if k in ('f', 're', 'F', 'db'): raise Skip()
        if k != 's': raise Bad()
        l = ty[5:].split('|')
        return '"%s"' % l[pick(l, v.x, '')]
    raise Skip()


def objects(deep):
    vals = [v for v in ALL if v.kind != 'u' and v.js not in ('FBAD', 'DB', 'FN', 'File')]
    if not deep: vals = [v for i, v in enumerate(vals) if v.kind in 'bzo' or i % 3 == 0]
    for w, t in (('I', INTERP), ('S', SQLITE)):
        for n, ty, how in table(t):
            vs = vals + [V(js(s), 's', s) for s in (ty[5:].split('|') + [ty[5:6], ty[5:8]] if ty.startswith('enum:') else [])]
            if n == 'lastInsertId': continue
            for i, v in enumerate(vs):
                if w == 'I' and (v.kind == 'n' and (v.x != v.x or math.isinf(v.x)) or n in ('maxArrayList', 'maxDepth') and v.kind == 'n' and abs(v.x) < 100): continue   # Passed as JSON; no lists.
                try:
                    if 'i' in how or 'r' in how: raise Bad()
                    if ty == 'bits': raise Skip()
                    e = '= %s true true' % conv(ty, n, v)
                except Bad: e = '! true true true'
                except Skip: continue
                yield Case('%s.conf %s=%s #%d' % (w, n, v.js[:40], i), 'T("%s",%s,%s%s);' % (w, js(n), v.js, ',true' if 'o' in how else ''), e, 2)
            if 'r' in how:
                yield Case('%s new %s' % (w, n), 'C("%s",%s,%s);' % (w, js(n), 'true' if ty == 'bool' else '""' if ty == 'string' else '5'), '!', 1)
            elif ty in ('bool', 'int', 'uint', 'string', 'array', 'object') and n not in ('subthread', 'isSafe', 'scriptStr', 'scriptFile', 'noEval', 'noConfig', 'confFile', 'lockDown', 'pkgDirs', 'autoFiles', 'safeExecPattern', 'readonly', 'coverage',
                    'profile', 'maxInterpDepth', 'noCreate', 'noCheck', 'noError', 'maxOpCnt', 'stdinStr', 'memLeakCnt', 'hasOpenSSL', 'interactive', 'memDebug', 'noSubInterps', 'args', 'safeReadDirs', 'safeWriteDirs'):
                for i, v in enumerate(vals):
                    if w == 'I' and v.kind == 'n' and (v.x != v.x or math.isinf(v.x)): continue
                    try: t2 = conv(ty, n, v)
                    except Skip: continue
                    except Bad:
                        if i % 4 == 0 or deep: yield Case('%s new %s=%s #%d' % (w, n, v.js[:40], i), 'C("%s",%s,%s);' % (w, js(n), v.js), '!', 1)
                        continue
                    if w == 'S' and v.kind == 'n' and n in ('timeout', 'stmtCacheMax', 'maxRegexCache', 'progressSteps'): continue
                    if w == 'I' and n in ('jsppChars', 'maxDepth', 'maxUserObjs', 'maxIncDepth', 'maxArrayList') : continue
                    if ty == 'object' and v.kind == 'z': continue
                    if n == 'name' and w == 'S' and v.kind != 's': continue
                    yield Case('%s new %s=%s #%d' % (w, n, v.js[:40], i), 'C("%s",%s,%s);' % (w, js(n), v.js), '= %s %s' % (t2, t2), 1)
        for n, ty, how in table(t):
            if ty != 'bits' or not BITN[n]: continue
            names = BITN[n]
            for start in ([], names[:1], names[-1:], names[::2]):
                for m in range(0, len(names)):
                    for form in ('o1', 'o0', 's', 'n', 'a', '=', 'q'):
                        x = names[m]
                        st = set(start)
                        if form == 'o1': e, o = st | {x}, '{%s:true}' % js(x)
                        elif form == 'o0': e, o = st - {x}, '{%s:false}' % js(x)
                        elif form == 's': e, o = st | {x}, js(x)
                        elif form == 'n': e, o = st - {x}, js('!' + x)
                        elif form == 'a': e, o = st | {x, names[-1]}, '[%s,%s]' % (js(x), js(names[-1]))
                        elif form == '=': e, o = {x}, js('=' + x)
                        else: e, o = st, js(x + 'q')
                        l = ['"%s"' % k for k in names if k in e]
                        yield Case('%s %s %s+%s %s' % (w, n, start, form, x), 'var x=mk("%s",{}), c=""; x.conf({%s:%s}); var b=DD(x,%s); try { x.conf({%s:%s}); c="="; } catch(e) { c="!"; }; puts(c, JSON.stringify(x.conf(%s)), DD(x,%s)===b); delete x;' % (
                            w, n, js('=' + ','.join(start)), js(n), n, o, js(n), js(n)), '%s %s true' % ('!' if form == 'q' else '=', '[ ' + ', '.join(l) + ' ]' if l else '[]'), 3)
    # In a safe interpreter.
    for n, ty, how in table(INTERP):
        if 'r' in how or ty in ('bits', 'func'): continue
        v = {'bool': 'true', 'int': '77', 'uint': '77', 'string': '"q"', 'array': '["q"]', 'object': '{q:1}'}.get(ty) or js(ty[5:].split('|')[1])
        if n in ('subthread', 'noConfig', 'tracePuts', 'noES6', 'stdoutStr', 'asserts', 'noStderr', 'coverage', 'profile', 'traceOp', 'typeWarnMax', 'memDebug', 'testMode', 'busyInterval', 'lockTimeout', 'jsppChars', 'assertMode'): continue
        src = 'var g=JSON.stringify(Interp.conf(%s)), c=""; try { Interp.conf({%s:%s}); c="="; } catch(e) { c="!"; }; [c, JSON.stringify(Interp.conf(%s))===g].join(" ");' % (js(n), n, v, js(n))
        bad = 'i' in how or 's' in how
        yield Case('safe %s' % n, 'var x=new Interp({isSafe:true}); puts(x.eval(%s)); delete x;' % js(src[:-1]), '! true' if bad else '= false', 1)
        yield Case('own %s' % n, 'var x=new Interp(); puts(x.eval(%s)); delete x;' % js(src[:-1]), '! true' if 'i' in how else '= false', 1)
        yield Case('noConfig %s' % n, 'var x=new Interp({noConfig:true}); puts(x.eval(%s)); delete x;' % js('var c=""; try { Interp.conf({%s:%s}); c="="; } catch(e) { c="!"; }; c' % (n, v)), '!', 1)
    for n in ('zz', 'max', 'logs', 'Name'):
        yield Case('unknown %s' % n, 'var x=new Interp(), b=DD(x,""); try { x.conf({%s:1}); puts("="); } catch(e) { puts("!"); }; try { x.conf(%s); puts("="); } catch(e) { puts("!"); }; try { new Interp({%s:1}); puts("="); } catch(e) { puts("!"); }; puts(DD(x,"")===b); delete x;' % (n, js(n), n), '!\n!\n!\ntrue', 3)
    for n, ty, how in table(INTERP):
        # Two interpreters do not share options.
        if 'i' in how or 'r' in how or ty not in ('bool', 'int', 'uint', 'string'): continue
        v = {'bool': 'true', 'int': '77', 'uint': '77', 'string': '"q"'}[ty]
        yield Case('apart %s' % n, 'var x=new Interp(), y=new Interp(), b=DD(y,""), m=JSON.stringify(Interp.conf(%s)); x.conf({%s:%s}); puts(DD(y,"")===b, JSON.stringify(Interp.conf(%s))===m); delete x; delete y;' % (js(n), n, v, js(n)), 'true true', 2)


def main():
    c = Ctx('R06')
    T = c.thorough
    c.drop = True
    so = c.cc(os.path.join(HERE, 'c/opts.c'), os.path.join(c.scratch, 'opts.so'), 'std', ['-shared', '-fPIC'], lib=False)
    env = {'TZ': 'UTC'}
    c.run_cases(itertools.chain(singles(T), pairs(T), multi(T), names(T)), batch=120, prolog=PRO % js(so), env=env)
    if T and not c.stop:
        os.makedirs(os.path.join(c.scratch, 'asan'), exist_ok=True)
        so2 = c.cc(os.path.join(HERE, 'c/opts.c'), os.path.join(c.scratch, 'asan/opts.so'), 'asan', ['-shared', '-fPIC'], lib=False)
        c.run_cases(itertools.chain(singles(False), pairs(False), multi(False), names(False)), batch=120, prolog=PRO % js(so2), kind='asan', env=env, timeout=300)
    if not c.stop: c.run_cases(objects(T), batch=60, prolog=OPRO, env=env)
    c.assumptions += ['numbers given to time options are within 1e11; objects and functions given where a text is expected are not judged', 'options set one after the other in one object: those before the first refused stay set']
    c.finish()


if __name__ == '__main__':
    main()
