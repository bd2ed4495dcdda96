"""Objects: every history of member operations up to a depth on two related objects, against a map model."""
import itertools
from mc.core import Ctx, Case

PROLOG = r'''
function V(x) { var t=typeof x; if (x===null) return 'null'; if (t==='array') { var r='['; for (var i=0;i<x.length;i++) r+=(i?',':'')+V(x[i]); return r+']'; }
 if (t==='object') return S(x); if (t==='string') return '"'+x+'"'; return ''+x; }
function S(o) { var r='{', k; for (k in o) { r += (r.length>1?',':'')+k+(o.hasOwnProperty(k)?'':'^')+':'+V(o[k]); } return r+'}'; }
function TRY(f) { try { return f(); } catch(e) { return 'EXC'; } }
function ADD(p) { p++; p+=10; p='q'; return 0; }
function SET(o, k, v) { o[k]=v; return o; }
'''


class Obj:
    def __init__(self, own=None, proto=None):
        self.own, self.proto = dict(own or {}), proto
        self.fz = self.nomod = False
        self.rdchk = True


class Exc(Exception):
    pass


def keys(o):
    seen = sorted(o.own, key=lambda s: s.encode())
    if o.proto is not None:
        for k in keys(o.proto):
            if k not in seen:
                seen.append(k)
    return seen


def lookup(o, k):
    while o is not None:
        if k in o.own: return o.own[k]
        o = o.proto
    return None


def read(o, k):
    v = lookup(o, k)
    if v is None and o.fz and o.rdchk: raise Exc()
    return v


def write(o, k, v):
    if o.fz and (o.nomod or k not in o.own): raise Exc()
    o.own[k] = v


def V(v):
    if v is None: return 'undefined'
    if isinstance(v, bool): return 'true' if v else 'false'
    if isinstance(v, Obj): return S(v)
    if isinstance(v, list): return '[' + ','.join(V(x) for x in v) + ']'
    if isinstance(v, str): return '"%s"' % v
    return str(v)


def S(o):
    return '{' + ','.join('%s%s:%s' % (k, '' if k in o.own else '^', V(lookup(o, k))) for k in keys(o)) + '}'


class St:
    def __init__(self):
        self.v = {}


def mkops():
    ops = []

    def op(text, fn):
        ops.append((text, fn))

    for o in 'ab':
        for k in 'xy':
            ks = '%s.%s' % (o, k)
            op('%s=7' % ks, lambda s, o=o, k=k: write(s.v[o], k, 7))

            def inc(s, o=o, k=k, d=1):
                ob = s.v[o]
                v = read(ob, k)
                if v is None: raise Exc()
                if ob.fz and ob.nomod: raise Exc()
                if k not in ob.own and ob.fz: raise Exc()
                ob.own[k] = v + d
            op('%s++' % ks, inc)

            def add(s, o=o, k=k):
                v = read(s.v[o], k)
                if v is None: raise Exc()
                write(s.v[o], k, v + 5)
            op('%s+=5' % ks, add)

            def dele(s, o=o, k=k):
                if s.v[o].fz: raise Exc()
                s.v[o].own.pop(k, None)
            op('delete %s' % ks, dele)
    p = {'a': 'b', 'b': 'a'}
    for o in 'ab':
        q = p[o]

        def assign(s, o=o, q=q):
            for k, v in sorted(s.v[q].own.items()):
                write(s.v[o], k, v)
        op('Object.assign(%s,%s)' % (o, q), assign)

        def fresh(s, o=o, q=q):
            s.v[o] = Obj(s.v[q].own)
        op('%s=Object.assign({},%s)' % (o, q), fresh)

        def merge(s, o=o, q=q):
            d = dict(s.v[q].own); d.update(s.v[o].own)
            s.v[o] = Obj(d)
        op('%s=%s.merge(%s)' % (o, q, o), merge)
        op('%s=Object.create(null,%s)' % (o, q), fresh)

        def create(s, o=o, q=q):
            s.v[o] = Obj({}, s.v[q])
        op('%s=Object.create(%s)' % (o, q), create)

        def alias(s, o=o, q=q):
            s.v[o] = s.v[q]
        op('%s=%s' % (o, q), alias)

        def lit(s, o=o):
            s.v[o] = Obj({'x': 1, 'y': 2})
        op('%s={x:1,y:2}' % o, lit)

        def sub(s, o=o, q=q):
            v = read(s.v[q], 'x')
            s.v[o] = Obj({'y': 0 if v is None else v, 'z': 9})
        op('%s={z:9,y:(%s.x===undefined?0:%s.x)}' % (o, q, q), sub)

        def fz(s, o=o, m=True, f=True, rd=True):
            s.v[o].fz, s.v[o].nomod, s.v[o].rdchk = f, not m, rd
        op('Object.freeze(%s)' % o, fz)
        op('Object.freeze(%s,true,false)' % o, lambda s, o=o, fz=fz: fz(s, o, False))
        op('Object.freeze(%s,true,true,false)' % o, lambda s, o=o, fz=fz: fz(s, o, True, True, False))
        op('Object.freeze(%s,false)' % o, lambda s, o=o, fz=fz: fz(s, o, True, False))

        def rd(s, o=o): return read(s.v[o], 'y')
        op('%s.y' % o, rd)

        def vals(s, o=o): return [v for k, v in sorted(s.v[o].own.items())]
        op('(function(){var l=Object.values(%s); var c=l.slice(0); for(var i=0;i<l.length;i++) {l[i]++; l[i]=9;} return c;})()' % o, vals)
        op('(function(){var k, n=0; for (k in %s) n+=ADD(%s[k]); return n;})()' % (o, o), lambda s: 0)
        op('(function(){var k, v; for (k in %s) {v=%s[k]; v++; v=3;} return 1;})()' % (o, o), lambda s: 1)

        def wipe(s, o=o):
            ks = keys(s.v[o])
            if ks and s.v[o].fz: raise Exc()
            s.v[o].own.clear()
            return len(ks)
        op('(function(){var k, n=0; for (k in %s) {delete %s[k]; n++;} return n;})()' % (o, o), wipe)

        def setp(s, o=o, q=q):
            # an empty object stands for its own prototype
            pr = s.v[q] if s.v[q].own and s.v[q] is not s.v[o] else s.v[q].proto
            c = pr
            while c is not None:
                if c is s.v[o]: raise Exc()
                c = c.proto
            s.v[o].proto = pr
        op('Object.setPrototypeOf(%s,%s)' % (o, q), setp)
    return ops


def main():
    c = Ctx('A02')
    ops = mkops()
    states = set()
    RET = {i for i, (t, f) in enumerate(ops) if t.startswith('(function') or t.endswith('.y') and len(t) == 3}

    def run(seq):
        s = St()
        s.v['a'], s.v['b'] = Obj({'x': 1}), Obj({'y': 2})
        out = []
        for i in seq:
            try:
                r = ops[i][1](s)
                r = V(r) if i in RET else 'ok'
            except Exc:
                r = '"EXC"' if i in RET else 'EXC'
            st = S(s.v['a']) + ' ' + S(s.v['b'])
            out.append(r + ' ' + st)
            states.add((st, s.v['a'].fz, s.v['a'].nomod, s.v['a'].rdchk, s.v['b'].fz, s.v['b'].nomod, s.v['b'].rdchk,
                        s.v['a'] is s.v['b']))
        return out

    def hist():
        depth = 3 if not c.thorough else 4
        for d in range(1, depth + 1):
            if d == 2 or d == 1 and depth > 1:
                if d == 1 and depth > 2: continue
            if d < depth: continue
            for seq in itertools.product(range(len(ops)), repeat=d):
                if d == 4 and not (seq[0] % 3 == 0 or seq[1] % 3 == 1):
                    # the fourth level keeps every triple as a suffix of some prefix class
                    continue
                txt = []
                for i in seq:
                    t = ops[i][0]
                    if i in RET:
                        if t.startswith('('):
                            txt.append('r=V(TRY(function(){return %s;}));' % t)
                        else:
                            txt.append('r="undefined"; try { r=%s; r=(r===undefined?"undefined":V(r)); } catch(e) { r=\'"EXC"\'; }' % t)
                    else:
                        txt.append('r="ok"; try { %s; } catch(e) { r="EXC"; }' % t)
                    txt.append('puts(r+" "+S(a)+" "+S(b));')
                yield Case('; '.join(ops[i][0] for i in seq), 'var a={x:1}, b={y:2}, r; ' + ' '.join(txt), '\n'.join(run(seq)), d)

    def perms():
        # insertion order x deletion order: the key set is always ordered and complete
        n = 5 if not c.thorough else 6
        ks = ['k%d' % i for i in range(n)]
        for ins in itertools.permutations(range(n)):
            txt, out = [], []
            base = ' '.join('o.k%d=%d;' % (i, i) for i in ins)
            m = 0
            for dele in itertools.permutations(range(n)):
                if c.thorough and dele[0] > 2: continue
                live = set(range(n))
                txt.append('o={}; %s r=""; ' % base + ' '.join('delete o.k%d; r+=Object.keys(o).join("")+" ";' % d for d in dele) + 'puts(r);')
                r = ''
                for d in dele:
                    live.discard(d)
                    r += ''.join('k%d' % i for i in sorted(live)) + ' '
                out.append(r)
                m += n
            yield Case('insert %r, delete in every order' % (ins,), 'var o, r; ' + '\n'.join(txt), '\n'.join(out), m)

    def sizes():
        # sizes across thresholds x insertion pattern x deletion pattern; digest of the contents
        pats = {'up': lambda n: list(range(n)), 'down': lambda n: list(range(n - 1, -1, -1)),
                'bit': lambda n: sorted(range(n), key=lambda i: int('{:012b}'.format(i)[::-1], 2)),
                'mix': lambda n: sorted(range(n), key=lambda i: (i * 7919) % 4099)}
        js = {'up': 'for(i=0;i<n;i++) P(i);', 'down': 'for(i=n-1;i>=0;i--) P(i);', }
        for n in [1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500, 513, 1000, 1025] + ([2049, 3999] if c.thorough else []):
            for pi in pats:
                for pd in pats:
                    pr, dl = pats[pi](n), pats[pd](n)
                    if n > 300 and pi != pd: continue
                    half = dl[:n // 2]
                    live = sorted((('k%d' % i), i) for i in set(range(n)) - set(half))
                    h = 0
                    for k, v in live:
                        h = (h * 31 + v) % 1000003
                    exp = '%d %d %s %s' % (len(live), h, 'ok', 'ok')
                    src = ('var o={}, i, I=%r, D=%r, ok="ok", h=0, n=0, k; for(i=0;i<I.length;i++) o["k"+I[i]]=I[i]; '
                           'for(i=0;i<D.length;i++) { if (o["k"+D[i]]!==D[i]) ok="lost"; delete o["k"+D[i]]; if (o["k"+D[i]]!==undefined) ok="kept"; }'
                           'for (k in o) { n++; h=(h*31+o[k])%%1000003; if (k!=="k"+o[k]) ok="key"; } '
                           'var ks=Object.keys(o), ok2="ok"; if (ks.length!==n) ok2="len"; for(i=0;i<ks.length;i++) if (!o.hasOwnProperty(ks[i]) || !(ks[i] in o)) ok2="has";'
                           'for(i=0;i<I.length;i++) o["k"+I[i]]=1; if (Object.keys(o).length!==I.length) ok2="again";'
                           'puts(n,h,ok,ok2);' % (pr, half))
                    yield Case('%d keys inserted %s, half deleted %s' % (n, pi, pd), src, exp, n * 2)

    def keykinds():
        ks = ['', ' ', '0', '1', '007', '-1', '1.5', '1e3', 'a b', "q'", 'é', '日本', '😀', 'A', 'a', 'length2', 'toString', 'valueOf', 'null', 'undefined',
              'true', 'if', 'var', 'function', '\t', '\\', '.', 'x.y', '[0]', 'k' * 63, 'k' * 64, 'k' * 199, 'k' * 200, 'k' * 255, 'k' * 256, 'k' * 1000, 'k' * 1023, 'k' * 1024,
              'k' * 1025, 'k' * 2047, 'k' * 2048, 'k' * 4095, 'k' * 4096, 'k' * 4097, 'k' * 9000, '__proto', 'freeze']
        def q(s): return '"' + s.replace('\\', '\\\\').replace('\t', '\\t') + '"'
        pairs = list(itertools.combinations(ks, 2))
        for x, y in pairs:
            if len(x) > 300 and len(y) > 300 and not c.thorough and abs(len(x) - len(y)) > 2: continue
            srt = sorted((x, y), key=lambda s: s.encode())
            src = ('var o={}, x=%s, y=%s; o[x]=1; o[y]=2; puts(o[x],o[y],Object.keys(o).length,Object.keys(o)[0]===%s, x in o, o.hasOwnProperty(y)); '
                   'o[x]+=5; o[y]++; var l={%s:7,%s:8}; puts(o[x],o[y],l[x],l[y]); delete o[x]; puts(o[x]===undefined,o[y], x in o, Object.keys(o).join("")===y);'
                   'var m=JSON.parse(JSON.stringify(l)); puts(m[x],m[y]);'
                   % (q(x), q(y), 'x' if srt[0] == x else 'y', q(x), q(y)))
            yield Case('keys %.40r(%d) %.40r(%d)' % (x, len(x), y, len(y)), src,
                       # (a deleted member named like a builtin shows the builtin again)
                       '1 2 2 true true true\n6 3 7 8\n%s 3 false true\n7 8' % ('false' if x in ('toString', 'valueOf') else 'true'), 8)
        # a number names the same member as its text
        for n, t in (('0', '0'), ('7', '7'), ('-3', '-3'), ('1.5', '1.5'), ('100000', '100000'), ('1e21', '1e+21'), ('0.1', '0.1'), ('4294967296', '4294967296'),
                     ('4294967297', '4294967297'), ('-0.25', '-0.25'), ('1e-7', '1e-07'), ('true', 'true'), ('null', 'null')):
            yield Case('number key %s' % n, 'var o={}; o[%s]=1; puts(o["%s"], Object.keys(o)[0]==="%s"); o["%s"]=2; puts(o[%s], Object.keys(o).length); delete o[%s]; puts(Object.keys(o).length);' % (n, t, t, t, n, n),
                       '1 true\n2 1\n0', 4)

    def accessors():
        # literal with getter and/or setter and/or data member x all histories of 3 ops
        forms = {'get': 'get p() { log.push("g"); return this.v; }', 'set': 'set p(n) { log.push("s"+n); this.v=n; }'}
        aops = [('o.p=4', 'w'), ('r=o.p', 'r'), ('o.p+=3', 'a'), ('o.p++', 'i'), ('--o.p', 'd'), ('o.v=9', 'v'), ('r=Object.keys(o).join(",")', 'k'), ('r=T(o)', 'f')]
        for have in (('get',), ('set',), ('get', 'set')):
            for seq in itertools.product(aops, repeat=3):
                if 'get' not in have and any(x[1] in 'raidf' for x in seq): continue
                if 'set' not in have and any(x[1] in 'waid' for x in seq): continue
                v, log, out = 1, [], []
                for t, k in seq:
                    r = 'n'
                    if k == 'w': v = 4; log.append('s4')
                    elif k == 'r': log.append('g'); r = v
                    elif k == 'f': log += ['g', 'g']; r = v * 2
                    elif k == 'a': log.append('g'); v += 3; log.append('s%d' % v)
                    elif k == 'i': log.append('g'); v += 1; log.append('s%d' % v)
                    elif k == 'd': log.append('g'); v -= 1; log.append('s%d' % v)
                    elif k == 'v': v = 9
                    elif k == 'k': r = 'v'
                    out.append('%s %d %s' % (r, v, ''.join(log)))
                src = ('var log=[], r; function T(q) { return q.p+q.p; } var o={v:1, %s}; ' % ', '.join(forms[h] for h in have) +
                       ' '.join('r="n"; %s; puts(r+" "+o.v+" "+log.join(""));' % t for t, k in seq))
                yield Case('accessors %s; %s' % ('+'.join(have), '; '.join(t for t, k in seq)), src, '\n'.join(out), 3)

    def iteration():
        # for-in while the body inserts, deletes or changes members at each position
        n = 4
        ks = ['a', 'b', 'c', 'd']
        acts = [('delete o.%s' % k, lambda o, k=k: o.pop(k, None)) for k in ks] + \
               [('o.%s=9' % k, lambda o, k=k: o.__setitem__(k, 9)) for k in ('a', 'c', 'bb', 'z')]
        for pos in range(n):
            for a1, a2 in itertools.product(acts, repeat=2):
                o = {k: i for i, k in enumerate(ks)}
                seen = []
                i = 0
                for k in ks:
                    if k not in o: continue
                    if i == pos:
                        a1[1](o); a2[1](o)
                    seen.append('%s:%s' % (k, o.get(k, 'u')))
                    i += 1
                exp = ','.join(seen) + ' ' + ','.join('%s:%s' % x for x in sorted(o.items()))
                src = ('var o={a:0,b:1,c:2,d:3}, k, i=0, r=[]; for (k in o) { if (i===%d) { %s; %s; } r.push(k+":"+(o[k]===undefined?"u":o[k])); i++; } '
                       'var q=[]; for (k in o) q.push(k+":"+o[k]); puts(r.join(",")+" "+q.join(","));' % (pos, a1[0], a2[0]))
                yield Case('for-in, at %d: %s; %s' % (pos, a1[0], a2[0]), src, exp, 4)

    def copies():
        # every kind of value goes through every way of copying members
        K = ['null', 'true', 'false', '0', '-1.5', '""', '"s"', '[]', '[null]', '{}', '{"n":null}']
        for x, y in itertools.product(K, repeat=2):
            for k2 in ('a', 'b'):
                d = lambda *ps: '{%s}' % ','.join('"%s":%s' % t for t in sorted(dict(ps).items()))
                one, two, both, rev = d(('a', x)), d((k2, y)), d(('a', x), (k2, y)), d((k2, y), ('a', x))
                exp = [both, rev, both, one, both, both, d(('z', '1'), (k2, y)), ','.join(sorted({'a', k2})), '[%s]' % ','.join(v for _, v in sorted(dict([('a', x), (k2, y)]).items()))]
                src = ('var o={a:%s}, q={%s:%s}, m=o.merge(q), n=q.merge(o), s=Object.assign({},o,q), r=[m,n,s,o,Object.create(null,m),Object.assign(o,q),Object.assign({z:1},q),Object.keys(m).join(","),Object.values(m)];'
                       ' r=r.map(function(v:any) { return typeof v==="string"?v:JSON.stringify(v).replace(/ /g,""); }); r[3]=JSON.stringify({a:%s}).replace(/ /g,""); puts(r.join(" "));' % (x, k2, y, x))
                yield Case('copies %s %s' % (one, two), src, ' '.join(exp), len(exp))

    def flow():
        # a value keeps its identity however it travels; primitives never alias
        ways = ['o.k', 'o["k"]', '[o.k][0]', '(function(p){return p;})(o.k)', '{q:o.k}.q', 'Object.values(o)[0]', 'Object.assign({},o).k', 'o.merge({}).k', 'Object.create(o).k',
                '[o.k].concat([])[0]', '[o.k].slice(0)[0]', '[o.k].map(function(x){return x;})[0]', '[o.k].filter(function(x){return true;})[0]', '[[o.k]].flat()[0]',
                '(function(x){return arguments[0];})(o.k)', '[o.k].pop()', '(function(p){return p;}).apply(null,[o.k])', '(function(p){return p;}).bind(null,o.k)()', '(function(p){return p;}).call(null,o.k)',
                '(true?o.k:0)', '(o.k||0)', '(1&&o.k)', '[0].reduce(function(p,x){return p;},o.k)', '[o.k].find(function(x){return true;})']
        srcs = [('let1', 'var o={k:5};'), ('var', 'var z=5; var o={}; o.k=z;'), ('param', 'var o=SET({},"k",5);'), ('const', 'const cc=5; var o={k:cc};'), ('constm', 'const cc=5; var o={}; o.k=cc;'),
                ('frozen', 'var o={k:5}; Object.freeze(o,true,false);'), ('proto', 'var o=Object.create({k:5});'), ('getter', 'var o={get k() {return 5;}};')]
        for (sn, st), w in itertools.product(srcs, ways):
            if sn in ('proto', 'getter') and ('Object.' in w or 'merge' in w): continue
            dests = [('var d=%s; d++; d+=2; puts(d);', '8'), ('var d=[%s]; d[0]++; d[0]+=2; puts(d[0]);', '8'), ('var d={m:%s}; d.m++; d.m+=2; puts(d.m);', '8'),
                     ('var d={}; d.m=%s; d.m++; d.m--; --d.m; puts(d.m);', '4'), ('var d=[]; d.push(%s); d[0]++; puts(d[0]);', '6'), ('var d=[1]; d[0]=%s; d[0]++; puts(d[0]);', '6'),
                     ('puts((function(p){p++; p+=2; return p;})(%s));', '8'), ('var d=Object.assign({},{m:%s}); d.m++; puts(d.m, Object.keys(d).join(""));', '6 m')]
            if w.startswith('{'): w = '(' + w + ')'
            w = w.replace('({q:o.k}.q)', '({q:o.k}).q')
            src, exp = '', []
            for i, (d, e) in enumerate(dests):
                src += '(function(){ %s %s puts(o.k); })();\n' % (st, d % w)
                exp += [e, '5']
            yield Case('value of %s via %s' % (sn, w), src, '\n'.join(exp), len(dests))
        for w in ways:
            yield Case('identity via %s' % w, 'var m={n:1}, o={k:m}; var d=%s; puts(d===m, d===o.k); d.n++; puts(m.n); d=3; puts(m.n);' % w, 'true true\n2\n2', 3)

    c.run_cases(flow(), 20, PROLOG)
    c.run_cases(copies(), 20, PROLOG)
    if not c.stop: c.run_cases(hist(), 1500, PROLOG)
    if not c.stop: c.run_cases(perms(), 6, PROLOG)
    if not c.stop: c.run_cases(sizes(), 20, PROLOG)
    if not c.stop: c.run_cases(keykinds(), 60, PROLOG)
    if not c.stop: c.run_cases(accessors(), 200, PROLOG)
    if not c.stop: c.run_cases(iteration(), 100, PROLOG)
    c.cov['states'] = len(states)
    c.cov['depth'] = 3 if not c.thorough else 4
    c.cov['alphabet'] = [t for t, f in ops]
    c.finish()


if __name__ == '__main__':
    main()
