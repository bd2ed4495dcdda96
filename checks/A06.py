"""Regular expressions: every pattern of a small grammar, with every flag, against every short subject: test, exec, match,
search and replace agree with the C library's matcher applied as JavaScript says; lastIndex over all short histories."""
import ctypes, itertools
from mc.core import Ctx, Case
from checks.A03 import jl, words

L = ctypes.CDLL(None)


class M(ctypes.Structure):
    _fields_ = [('so', ctypes.c_int), ('eo', ctypes.c_int)]


class Rx:
    """POSIX extended expression in the C locale, the engine jsish is built on"""
    def __init__(self, pat, flags):
        self.buf = ctypes.create_string_buffer(256)
        f = 1 | (2 if 'i' in flags else 0) | (4 if 'm' in flags else 0)
        self.rc = L.regcomp(self.buf, pat.encode(), f)
        self.g, self.m = 'g' in flags, 'm' in flags
        self.ns = ctypes.cast(ctypes.byref(self.buf, 48), ctypes.POINTER(ctypes.c_size_t))[0] if self.rc == 0 else 0
        self.pm = (M * 10)()

    def at(self, b, pos):
        """spans of the first match at or after byte pos, or None"""
        bol = pos == 0 or self.m and b[pos - 1:pos] == b'\n'
        if L.regexec(self.buf, b[pos:], 10, self.pm, 0 if bol else 1): return None
        return [(pos + self.pm[i].so, pos + self.pm[i].eo) if self.pm[i].so >= 0 else None for i in range(self.ns + 1)]

    def all(self, b):
        pos, out = 0, []
        while True:
            m = self.at(b, pos)
            if not m: return out
            out.append(m)
            s, e = m[0]
            pos = e
            if s == e:
                if e >= len(b): return out
                pos += 1
                while pos < len(b) and b[pos] & 0xc0 == 0x80: pos += 1
            if not self.g: return out


def cut(b, x): return None if x is None else b[x[0]:x[1]].decode()
def chars(b, n): return len(b[:n].decode())


def V(v):
    if v is None: return 'null'
    if isinstance(v, list): return '[' + ','.join(map(V, v)) + ']'
    if isinstance(v, str): return '<' + v + '>'
    if isinstance(v, bool): return 'true' if v else 'false'
    return str(v)


def expand(t, b, m, rx):
    o, i = '', 0
    while i < len(t):
        ch = t[i]
        if ch == '$' and i + 1 < len(t):
            d = t[i + 1]
            i += 2
            if d.isdigit(): o += (cut(b, m[int(d)]) or '') if int(d) < len(m) else ''
            elif d == '&': o += cut(b, m[0])
            elif d == '$': o += '$'
            elif d == "'": o += b[m[0][1]:].decode()
            elif d == '`': o += b[:m[0][0]].decode()
            else: o += '$' + d
            continue
        o += ch
        i += 1
    return o


def subst(rx, s, f):
    b = s.encode()
    ms = rx.all(b)
    o, p = '', 0
    for m in ms:
        o += b[p:m[0][0]].decode() + f(b, m)
        p = m[0][1]
    return o + b[p:].decode()


TPL = ['-', '<$&>', '$1', '$2$1', '$$', "[$']", '[$`]', '$', 'x$', '$z', '$0$9', '']

PROLOG = r'''
function V(w) { var v=w[0]; if (v===null) return 'null'; if (typeof v==='array') { var r=[], i; for (i=0;i<v.length;i++) { r.push(V([v[i]])); } return '['+r.join(',')+']'; }
  if (typeof v==='string') return '<'+v+'>'; return ''+v; }
var TPL=[%s];
function X(re, ss) {
  var i, k, r, s, h;
  for (k=0;k<ss.length;k++) { s=ss[k]; r=[];
    re.lastIndex=0;
    r.push(V([re.test(s)]), V([s.search(re)]), V([s.match(re)]), V([re.exec(s)]));
    re.lastIndex=0;
    for (i=0;i<TPL.length;i++) { r.push(s.replace(re,TPL[i])); }
    r.push(s.replace(re,function(m) { return '('+m+')'; }));
    r.push(s.replace(re,function(...) { return V([arguments]); }));
    puts(r.join(' '));
  }
}
'''


def main():
    c = Ctx('A06')
    T = c.thorough
    prolog = PROLOG.replace('%s', ','.join(map(jl, TPL)))
    st = set()

    def model(rx, s):
        b = s.encode()
        m = rx.at(b, 0)
        g = [cut(b, x) for x in m] if m else None
        r = [V(bool(m)), V(chars(b, m[0][0]) if m else -1), V([cut(b, x[0]) for x in rx.all(b)] if m and rx.g else g), V(g)]
        r += [subst(rx, s, lambda b, m: expand(t, b, m, rx)) for t in TPL]
        r.append(subst(rx, s, lambda b, m: '(' + cut(b, m[0]) + ')'))
        r.append(subst(rx, s, lambda b, m: V([cut(b, x) for x in m] + [chars(b, m[0][0]), s])))
        return ' '.join(r)

    def lit(p, f):
        return '/%s/%s' % (p, f)

    AT = ['a', 'b', 'A', '.', '[ab]', '[^a]', '(a)', '(b)', '(a|b)', '(ab)', 'x']
    Q = ['', '*', '+', '?', '{2}', '{0,1}']
    unit = [a + q for a in AT for q in Q]

    def pats():
        for u in unit: yield u
        for u in unit:
            for w in (unit if T else [a + q for a in ('a', '.', '(b)', '(a|b)') for q in ('', '*')]):
                yield u + w
        for u in [a + q for a in ('a', '.', '(a)', '(b)', '[^a]') for q in ('', '*', '?')]:
            for w in [a + q for a in ('a', '(b)', '.') for q in ('', '+', '?')]:
                for f in ('^%s%s', '%s%s$', '^%s%s$', '^%s|%s', '%s|%s', '(%s|%s)', '(%s|%s)*', '(%s)%s|c', '((%s)%s)', '%s\\b%s', '%s$|%s', '(%s)(%s)', '(%s)%s\\1'):
                    yield f % (u, w)
        for p in ('', '^', '$', '^$', '\\b', '()', '(^)', '($)', '(a)(b)?(a)', '((a)|(b))*', '(((a)))', '(a)(a)(a)(b)(b)(a)?(b)?(a)?(b)?', '\\.', '\\$', '\\/', '[/]', '[.]', '[[:alpha:]]', '[[:space:]]+', '\\w+', '\\s', '\\W', '(?a)', '(', ')', '[', 'a{', '*', 'a**', 'a{2,1}', '\\'):
            yield p

    def one(p, flags, subj, how):
        rx = Rx(p, flags)
        make = {'literal': lit(p, flags), 'constructor': 'new RegExp(%s%s)' % (jl(p), ',' + jl(flags) if flags else '')}[how]
        if rx.rc:
            return Case('%s %s is refused' % (how, make), 'var e="accepted"; try { var r=new RegExp(%s,%s); } catch(x) { e="raised"; } puts(e);' % (jl(p), jl(flags)), 'raised', 1)
        return Case('%s %s on %r ...' % (how, make, subj[-1]), 'X(%s,[%s]);' % (make, ','.join(map(jl, subj))),
                    '\n'.join(model(rx, s) for s in subj), len(subj) * (len(TPL) + 6))

    S1 = list(words('ab', 3 if not T else 6)) + ['A', 'aB', 'cab', 'bcbca']
    S2 = list(words('aB\n', 3 if not T else 4))
    S3 = ['é', 'aé', 'éa', 'éaé', 'éab♥a', '♥b♥a', 'aé\nba']       # single-character classes are bytes in this engine: kept out

    def plain(p): return not any(x in p for x in ('.', '[', '\\', '()', 'x*', '*', '?', '{', '|)')) and p not in ('', '^', '$', '(^)', '($)')

    def basic():
        seen = set()
        for p in pats():
            if p in seen: continue
            seen.add(p)
            nolit = p == '' or p.startswith('*') or '[/]' in p
            if Rx(p, '').rc or nolit:
                if p: yield one(p, '', S1, 'constructor')
                continue
            if p.endswith('\\'): continue
            st.add(p)
            yield one(p, '', S1, 'literal')
            yield one(p, 'g', S1, 'constructor')
            if len(p) < 6 or T:
                yield one(p, 'gi', S1, 'literal')
                yield one(p, 'gm', S2, 'literal')
                yield one(p, 'm', S2, 'constructor')
            elif '^' in p or '$' in p:
                yield one(p, 'gm', S2, 'literal')
            if plain(p):
                yield one(p, 'g', S3, 'literal')
                yield one(p, '', S3, 'literal')

    def hist():
        # histories of uses of two expression objects with the same text, and one without the g flag
        subj = ['abab', 'ba', 'éaéa']
        pat = '(a)'
        rx = Rx(pat, 'g')
        ops = [('%s.exec(%s)' % (r, jl(s)), ('exec', r, s)) for r in 'pq' for s in subj] + \
              [('n.exec("xab")', ('one', 'n', 'xab')), ('p.test("ba")', ('test',)), ('"aba".match(p)', ('match',)), ('"aba".replace(q,"-")', ('rep',)), ('p.lastIndex=%d' % 2, ('set', 'p', 2)),
               ('p.lastIndex=99', ('set', 'p', 99)), ('q.lastIndex=0', ('set', 'q', 0))]
        depth = 3 if not T else 4
        for seq in itertools.product(range(len(ops)), repeat=depth):
            li = {'p': None, 'q': None}
            out = []
            for i in seq:
                o = ops[i][1]
                if o[0] == 'exec':
                    s = o[2]
                    k = li[o[1]] or 0
                    m = None
                    if k <= len(s): m = rx.at(s.encode(), len(s[:k].encode()))
                    if m:
                        li[o[1]] = chars(s.encode(), m[0][1])
                        out.append(V([cut(s.encode(), x) for x in m]))
                    else:
                        li[o[1]] = 0
                        out.append('null')
                elif o[0] == 'one': out.append(V(['a', 'a']))
                elif o[0] == 'test': out.append('true')
                elif o[0] == 'match': out.append(V(['a', 'a']))
                elif o[0] == 'rep': out.append('<-b->')
                else:
                    li[o[1]] = o[2]
                    out.append(str(o[2]))
                out.append('%s %s' % tuple('-' if li[x] is None else li[x] for x in 'pq'))
                st.add((li['p'], li['q']))
            src = 'var p=new RegExp("(a)","g"), q=new RegExp("(a)","g"), n=new RegExp("(a)"), r; function I(x) { return x.lastIndex===undefined?"-":x.lastIndex; }\n'
            src += ' '.join('puts(V([%s])); puts(I(p),I(q));' % ops[i][0] for i in seq)
            yield Case('; '.join(ops[i][0] for i in seq), src, '\n'.join(out), depth)

    def flags():
        # one text, every order of creating it with different flags: each object keeps its own
        fl = ['', 'g', 'i', 'gi', 'm', 'gm']
        for perm in itertools.permutations(fl, 3 if not T else 4):
            src = 'var r=[]; ' + ' '.join('r.push(new RegExp("^a|b",%s));' % jl(f) if f else 'r.push(new RegExp("^a|b"));' for f in perm) + ' var i; for (i=0;i<r.length;i++) { puts("abA\\nAB".replace(r[i],"-")); puts(typeof r[i]); }'
            yield Case('flags %s' % (perm,), src, '\n'.join(subst(Rx('^a|b', f), 'abA\nAB', lambda b, m: '-') + '\nregexp' for f in perm), len(perm))

    def sizes():
        for n in (1, 99, 100, 101, 255, 256, 1023, 1024, 4095, 4096, 4097) + ((20000,) if T else ()):
            yield Case('%d matches' % n, 'var s="ab".repeat(%d), k=0; puts(s.replace(/a/g,"xyz").length, s.replace(/b/g,function(m) { k++; return m+m; }).length, k, s.match(/ab/g).length, s.replace(/(ab)*/,"$1$&").length, s.search(/b$/));' % n,
                       '%d %d %d %d %d %d' % (4 * n, 3 * n, n, n, 2 * n + 2, 2 * n - 1), n)
            yield Case('match of length %d' % n, 'var s="a".repeat(%d)+"b", m=s.match(/(a*)(b)/); puts(m.length, m[0].length, m[1].length, m[2], s.replace(/a*/,"").length, s.replace(/(a+)/,"$1$1").length);' % n,
                       '3 %d %d b 1 %d' % (n + 1, n, 2 * n + 1), n)
            pt = 'a' * min(n, 4096)
            yield Case('pattern of length %d' % len(pt), 'var p="a".repeat(%d), r=new RegExp(p,"g"), s="x"+p; puts(s.search(r), s.replace(r,"-"));' % len(pt), "1 x-", 3)

    c.run_cases(itertools.chain(basic(), hist(), flags(), sizes()), batch=60, prolog=prolog)
    c.cov['states'] += len(st)
    c.finish()


if __name__ == '__main__':
    main()
