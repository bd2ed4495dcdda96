"""Strings: every string up to a length over characters of each UTF-8 width, every method, every argument around the
string's length; splitting, joining, mapping, trimming and replacing over every small text; sizes past each buffer limit."""
import itertools
from mc.core import Ctx, Case

PROLOG = r'''
function A(s) {
  var n=s.length, i, j, r, t;
  puts(n+'|'+typeof s);
  r=[]; for (i=-2;i<n+3;i++) { r.push('['+s.charAt(i)+']'); } puts(r.join(''));
  r=[]; for (i=-1;i<n+2;i++) { r.push(''+s.charCodeAt(i)); } puts(r.join(' '));
  r=[]; for (i=0;i<n;i++) { r.push(s[i]); } puts(r.join(''), String.fromCharCode(s.charCodeAt(0)||65)); 
  r=''; for (i=0;i<n;i++) { r+=String.fromCharCode(s.charCodeAt(i)); } puts(r===s);
  r=[]; for (i= -n-1;i<n+2;i++) { r.push('['+s.substr(i)+']'); for (j= -1;j<n+3;j++) { t=s.substr(i,j); r.push(t.length+t); } } puts(r.join('|'));
  r=[]; for (i=0;i<n+2;i++) { r.push('['+s.substring(i)+']'); for (j= -1;j<n+3;j++) { t=s.substring(i,j); r.push(t.length+t); } } puts(r.join('|'));
  r=[]; for (i= -n-2;i<n+3;i++) { t=s.slice(i); r.push(t.length+t); } puts(r.join('|'));
  r=[]; for (i=0;i<n+2;i++) { for (j=i;j<n+3;j++) { t=s.slice(i,j); r.push(t.length+t); } } for (j= -n-1;j<0;j++) { r.push(s.slice(0,j)); } puts(r.join('|'));
  puts([s.toUpperCase(),s.toLowerCase(),s.toTitle(),s.toLocaleUpperCase(),s.toLocaleLowerCase(),s.concat(),s.concat(s),s.concat('é',s,'z'),s+s,s.repeat.length].join('|').length);
  puts([s.toUpperCase(),s.toLowerCase(),s.toTitle(),s.toLocaleUpperCase(),s.toLocaleLowerCase(),s.concat(),s.concat(s),s.concat('é',s,'z'),s+s].join('|'));
}
function I(s, ts) {
  var n=s.length, i, k, r=[], t;
  for (k=0;k<ts.length;k++) { t=ts[k];
    r.push(s.indexOf(t)); for (i= -1;i<n+3;i++) { r.push(s.indexOf(t,i)); }
    if (t!=='') { r.push('l'); r.push(s.lastIndexOf(t)); for (i= -1;i<n+3;i++) { r.push(s.lastIndexOf(t,i)); } }
    r.push('s'); r.push(s.search(t)); r.push(';'); }
  puts(r.join(' '));
}
function P(s, ts) {
  var k, r=[], x, t;
  for (k=0;k<ts.length;k++) { t=ts[k];
    x=s.split(t); r.push(x.length+'<'+x.join('><')+'>'); r.push(x.join(t)===s);
    r.push(s.replace(t,'')); r.push(s.replace(t,'<$&>')); r.push(s.replace(t,function(m) { return '['+m+m+']'; })); }
  puts(r.join('|'));
}
function W(s) {
  var x=s.split(null), y=s.split();
  puts(x.length+'<'+x.join('><')+'>', y.length+'<'+y.join('><')+'>');
  puts('['+s.trim()+'|'+s.trimLeft()+'|'+s.trimRight()+']');
  puts('['+s.trim('a')+'|'+s.trimLeft('a ')+'|'+s.trimRight('ba')+'|'+s.trim('\n')+'|'+s.trim('xy\nab')+'|'+s.trimRight(' \nba')+'|'+s.trimLeft('xyz a')+']');
}
'''


def up(s): return ''.join(c.upper() if c < '\x80' else c for c in s)
def lo(s): return ''.join(c.lower() if c < '\x80' else c for c in s)


def model_all(s):
    n = len(s)
    o = []
    o.append('%d|string' % n)
    o.append(''.join('[%s]' % (s[i] if 0 <= i < n else '') for i in range(-2, n + 3)))
    o.append(' '.join(str(ord(s[i])) if 0 <= i < n else 'NaN' for i in range(-1, n + 2)))
    o.append(s + ' ' + (s[0] if s else 'A'))
    o.append('true')

    def st(i):
        if n == 0: return 0
        while i < 0: i += n
        return i
    r = []
    for i in range(-n - 1, n + 2):
        r.append('[%s]' % s[st(i):])
        for j in range(-1, n + 3):
            t = s[st(i):st(i) + j] if j > 0 else ''
            r.append('%d%s' % (len(t), t))
    o.append('|'.join(r))
    r = []
    for i in range(0, n + 2):
        r.append('[%s]' % s[i:])
        for j in range(-1, n + 3):
            t = s[i:j + 1] if min(j, n) >= i else ''
            r.append('%d%s' % (len(t), t))
    o.append('|'.join(r))
    r = []
    for i in range(-n - 2, n + 3):
        t = s[max(0, n + i):] if i < 0 else s[i:]
        r.append('%d%s' % (len(t), t))
    o.append('|'.join(r))
    r = []
    for i in range(n + 2):
        for j in range(i, n + 3):
            t = s[i:i + j]
            r.append('%d%s' % (len(t), t))
    for j in range(-n - 1, 0):
        r.append(s[:max(0, n + j)])
    o.append('|'.join(r))
    title = up(s[:1]) + lo(s[1:])
    x = [up(s), lo(s), title, up(s), lo(s), s, s + s, s + 'é' + s + 'z', s + s]
    o.append(str(len('|'.join(x + ['1']))))
    o.append('|'.join(x))
    return '\n'.join(o)


def model_index(s, ts):
    n = len(s)

    def ix(t, i):
        i = max(0, i)
        return -1 if i > n else s.find(t, i)

    def lx(t, i):
        i = max(0, i)
        r = s.rfind(t)
        return r if r >= i and i <= n else -1
    r = []
    for t in ts:
        r.append(ix(t, 0))
        r += [ix(t, i) for i in range(-1, n + 3)]
        if t:
            r += ['l', lx(t, 0)] + [lx(t, i) for i in range(-1, n + 3)]
        r += ['s', ix(t, 0), ';']
    return ' '.join(map(str, r))


def model_split(s, ts):
    r = []
    for t in ts:
        x = s.split(t)
        r += ['%d<%s>' % (len(x), '><'.join(x)), 'true', s.replace(t, '', 1), s.replace(t, '<$&>', 1), s.replace(t, '[' + t + t + ']', 1)]
    return '|'.join(r)


WS = ' \t\n\r'


def model_ws(s):
    def cut(s, l, r, cs):
        if l: s = s.lstrip(cs)
        if r: s = s.rstrip(cs)
        return s
    words = ''.join(' ' if c in WS else c for c in s).split(' ')
    non = [w for w in words if w]
    return '\n'.join(['%d<%s> %d<%s>' % (len(non), '><'.join(non), len(words), '><'.join(words)),
                      '[%s|%s|%s]' % (s.strip(WS), s.lstrip(WS), s.rstrip(WS)),
                      '[%s|%s|%s|%s|%s|%s|%s]' % (s.strip('a'), s.lstrip('a '), s.rstrip('ba'), s.strip('\n'), s.strip('xy\nab'), s.rstrip(' \nba'), s.lstrip('xyz a'))])


def model_map(s, pairs, nocase):
    o, i = '', 0
    while i < len(s):
        for k, v in pairs:
            t = s[i:i + len(k)]
            if t == k or nocase and lo(t) == lo(k):
                o += v
                i += len(k)
                break
        else:
            o += s[i]
            i += 1
    return o


def jl(s):
    m = {'\\': '\\\\', '"': '\\"', '\n': '\\n', '\r': '\\r', '\t': '\\t'}
    return '"' + ''.join(m.get(c, c) for c in s) + '"'


def words(alpha, n, lo=0):
    for k in range(lo, n + 1):
        for t in itertools.product(alpha, repeat=k):
            yield ''.join(t)


def main():
    c = Ctx('A03')
    seen = set()
    T = c.thorough
    WIDE = 'aBé♥\U0001F600'

    def basic():
        for s in words(WIDE, 5 if not T else 6):
            seen.add(s)
            yield Case('every method on %r' % s, 'A(%s);' % jl(s), model_all(s), 200)
        for s in words('aZ z', 5 if not T else 7):
            seen.add(s)
            yield Case('every method on %r' % s, 'A(%s);' % jl(s), model_all(s), 200)
        # code points next to each encoding limit, at each place of a short string
        for cp in (0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10ffff):
            for pre in ('', 'x', 'é', '♥'):
                for post in ('', 'y', 'é', '\U0001F600'):
                    s = pre + chr(cp) + post
                    yield Case('every method on %a' % s, 'var s=%s+String.fromCharCode(%d)+%s; puts(s===%s); A(s);' % (jl(pre), cp, jl(post), jl(s)),
                               'true\n' + model_all(s), 200)

    def index():
        for al, n in (("ab", 7 if not T else 9), ("aé", 6 if not T else 8), ("a♥\U0001F600", 5 if not T else 6)):
            ts = [t for t in words(al, 3 if len(al) < 3 else 2)] + ['zz', al * 5]
            for s in words(al, n):
                seen.add(s)
                yield Case('search %r in %r' % (ts[-1], s), 'I(%s,[%s]);' % (jl(s), ','.join(map(jl, ts))), model_index(s, ts), 10 * len(ts))
                t2 = [t for t in ts if t]
                yield Case('split and replace %r' % s, 'P(%s,[%s]);' % (jl(s), ','.join(map(jl, t2))), model_split(s, t2), 5 * len(t2))

    def white():
        for s in words("a \n", 7 if not T else 8):
            seen.add(s)
            yield Case('white space in %r' % s, 'W(%s);' % jl(s), model_ws(s), 9)
        for s in words('ab\t\ré', 4 if not T else 5):
            seen.add(s)
            yield Case('white space in %r' % s, 'W(%s);' % jl(s), model_ws(s), 9)
        for s in words('ab', 6):
            yield Case('split %r into characters' % s, 'var r=%s.split(""); puts(r.length+r.join("-"));' % jl(s), '%d%s' % (len(s), '-'.join(s)))

    def maps():
        keys = ['a', 'b', 'A', 'ab', 'ba', 'é', 'aé']
        lists = [(k,) for k in keys] + list(itertools.permutations(keys, 2)) + ([] if not T else list(itertools.permutations(keys, 3)))
        ss = list(words('abAé', 4 if not T else 5))
        for L in lists:
            pairs = [(k, v) for k, v in zip(L, ('<1>', '', 'é'))]
            js = '[%s]' % ','.join('%s,%s' % (jl(k), jl(v)) for k, v in pairs)
            for i in range(0, len(ss), 100):
                sub = ss[i:i + 100]
                for nc in (0, 1):
                    yield Case('map(%s%s) of %r ...' % (js, ',true' if nc else '', sub[0]),
                               'var i, r=[], w=[%s]; for (i=0;i<w.length;i++) { r.push(w[i].map(%s%s)); } puts(r.join("|"));' % (','.join(map(jl, sub)), js, ',true' if nc else ''),
                               '|'.join(model_map(s, pairs, nc) for s in sub), len(sub))

    def sizes():
        szs = [1, 2, 63, 64, 99, 100, 101, 199, 200, 201, 202, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 99990]
        for n in szs if T else szs[:-2]:
            for ch in 'xé♥':
                s = ch * n
                w = len(ch.encode())
                yield Case('%d times %s' % (n, ch),
                           'var c=%s, s=c.repeat(%d), t=s+"!", u, i; puts(s.length, t.length, t.indexOf("!"), t.lastIndexOf(c), t.search("!"), t.charAt(%d), t.substr(%d).length, t.slice(%d));\n'
                           'puts(s.toUpperCase().length, s.concat(s,"z").length, ("-"+s+"-").trim("-")===s, t.split(c).length, t.replace("!",s).length, (s+" "+s).split(null).length, s.map([c,"ab"]).length, [s,s].join(t).length, (s+s).substr(%d)===s, s.replace(c,"").length);'
                           % (jl(ch), n, n, n - 1, n - 1, n),
                           '%d %d %d %d %d ! 2 %s\n' % (n, n + 1, n, n - 1, n, ch + '!') +
                           '%d %d true %d %d 2 %d %d true %d' % (n, 2 * n + 1, n + 1, 2 * n, 2 * n, 3 * n + 1, n - 1), 18)
        for ln in (1, 2, 50, 100, 199, 200, 201):
            for n in (0, 1, 2, 40, 41, 100, 1000):
                yield Case('repeat %d x %d' % (ln, n), 'var s="ab".repeat(%d).substr(0,%d), r=s.repeat(%d); puts(r.length, r===new Array(%d).fill(s).join(""));' % (ln, ln, n, n) if 0 else
                           'var s="ab".repeat(%d).substr(0,%d), r=s.repeat(%d), q="", i; for (i=0;i<%d;i++) { q+=s; } puts(r.length, r===q);' % (ln, ln, n, n), '%d true' % (ln * n), 3)

    gens = [basic(), index(), white(), maps(), sizes()]
    c.run_cases(itertools.chain(*gens), batch=60, prolog=PROLOG)
    c.cov['states'] += len(seen)
    c.finish()


if __name__ == '__main__':
    main()
