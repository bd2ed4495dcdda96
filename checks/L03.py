"""Closures, scopes, calls: every small nest of functions, every call form, every history of calls on
shared closures, recursion limits, and exceptions out of callbacks."""
import itertools
from mc.core import Ctx, Case

PROLOG = r'''
var OUT = [];
function T(x) { OUT.push(''+x); }
function N(x) { return x; }
function W() { puts(OUT.join(' ')); OUT = []; }
'''


# ------------------------------------------------------------------ nested scopes
class Env:
    def __init__(s, up): s.v, s.up = {}, up
    def find(s, n):
        e = s
        while e is not None:
            if n in e.v: return e
            e = e.up


class Fn:
    """kind of declaration of 'a' per level: '' | 'var' | 'par'; wr: does the body write a before calling the inner function"""
    def __init__(self, levels, forms=None):
        self.levels = levels
        self.forms = forms or ('expr',) * len(levels)       # how the function at each level is written

    def js(self):
        def body(k):
            d, w, mode = self.levels[k]
            s = ''
            if d == 'var': s += 'var a = %d; ' % (10 * (k + 1))
            s += "T('%d<'+a); " % k
            if w: s += 'a += %d; ' % (k + 1)
            if k + 1 < len(self.levels):
                d2 = self.levels[k + 1][0]
                par, arg, form = ('a' if d2 == 'par' else ''), ('%d' % (100 * (k + 1)) if d2 == 'par' else ''), self.forms[k + 1]
                call = 'f%d(%s)' % (k, arg)
                if form == 'expr': s += 'var f%d = function(%s) { %s}; ' % (k, par, body(k + 1))
                elif form == 'decl': s += 'function f%d(%s) { %s} ' % (k, par, body(k + 1))
                elif form == 'arrow': s += 'var f%d = %s => { %s}; ' % (k, par or '()', body(k + 1))
                elif form == 'method':
                    s += 'var o%d = { z:0, m(%s) { %s} }; ' % (k, par, body(k + 1))
                    call = 'o%d.m(%s)' % (k, arg)
                elif form == 'getter':
                    s += 'var o%d = { get m() { %sreturn 0; } }; ' % (k, body(k + 1))
                    call = 'N(o%d.m)' % k
                elif form == 'setter':
                    s += 'var o%d = { set m(%s) { %s} }; ' % (k, par or 'z', body(k + 1))
                    call = 'o%d.m = %s' % (k, arg or '0')
                if mode == 'now': s += call + '; '
                elif mode == 'twice': s += '%s; %s; ' % (call, call)
                else: s += 'K.push(function() { %s; }); ' % call
            s += "T('%d>'+a); " % k
            if w: s += 'a += %d; ' % (100 * (k + 1))
            return s
        d = self.levels[0][0]
        return 'var a = 1; var K = []; var f = function(%s) { %s}; f(%s); f(%s); %sT(a); W();' % (
            'a' if d == 'par' else '', body(0), '50' if d == 'par' else '', '51' if d == 'par' else '',
            'for (var i=0; i<K.length; i++) { K[i](); } ')

    def run(self):
        out, K = [], []
        top = Env(None)
        top.v['a'] = 1

        def call(k, env, arg):
            d, w, mode = self.levels[k]
            e = Env(env)
            if d == 'var': e.v['a'] = 10 * (k + 1)
            if d == 'par': e.v['a'] = arg
            x = e.find('a')
            out.append('%d<%d' % (k, x.v['a']))
            if w: x.v['a'] += k + 1
            if k + 1 < len(self.levels):
                a2 = 100 * (k + 1)
                if mode == 'now': call(k + 1, e, a2)
                elif mode == 'twice':
                    call(k + 1, e, a2); call(k + 1, e, a2)
                else: K.append((k + 1, e, a2))
            out.append('%d>%d' % (k, x.v['a']))
            if w: x.v['a'] += 100 * (k + 1)
        call(0, top, 50)
        call(0, top, 51)
        i = 0
        while i < len(K):
            call(*K[i]); i += 1
        out.append('%d' % top.v['a'])
        return ' '.join(out)


FORMS = ('expr', 'decl', 'arrow', 'method', 'getter', 'setter')


def scopes(deep):
    decl = ('', 'var', 'par')
    for depth in ((1, 2, 3, 4) if deep else (1, 2, 3)):
        for ds in itertools.product(decl, repeat=depth):
            for ws in itertools.product((0, 1), repeat=depth):
                for ms in itertools.product(('now', 'twice', 'later'), repeat=depth - 1):
                    lv = [(d, w, m) for d, w, m in zip(ds, ws, ms + ('now',))]
                    for fs in itertools.product(FORMS, repeat=depth - 1):
                        if set(fs) - {'expr'}:
                            if any(f == 'getter' and d == 'par' for f, d in zip(fs, ds[1:])): continue
                            if depth == 4 and len(set(fs)) > 1: continue
                            if depth == 3 and not deep and not all(ws): continue
                        f = Fn(lv, ('expr',) + fs)
                        yield Case('scopes %s %s %s %s' % (ds, ws, ms, fs), f.js(), f.run(), 2 * depth)


def deepnests(deep):
    """Linear nests of every depth: the innermost function reads and changes the variable of every outer level."""
    for depth in range(1, 41 if deep else 25):
        for form in ('expr', 'decl', 'arrow'):
            for rw in (0, 1, 2):
                def body(k):
                    s = 'var v%d = %d; ' % (k, 3 * k + 1)
                    if k + 1 == depth:
                        for j in range(depth):
                            if rw: s += 'v%d += %d; ' % (j, 100 * (j + 1))
                            s += 'T(v%d); ' % j
                        if rw == 2: s += ' '.join('v%d++;' % j for j in range(depth))
                    else:
                        if form == 'expr': s += 'var f%d = function() { %s}; ' % (k, body(k + 1))
                        elif form == 'decl': s += 'function f%d() { %s} ' % (k, body(k + 1))
                        else: s += 'var f%d = () => { %s}; ' % (k, body(k + 1))
                        s += 'f%d(); ' % k
                    return s + 'T(v%d); ' % k
                out = [3 * j + 1 + (100 * (j + 1) if rw else 0) for j in range(depth)]
                out += [x + (rw == 2) for x in reversed(out)]
                yield Case('nest depth=%d %s rw=%d' % (depth, form, rw), 'var g = function() { %s}; g(); W();' % body(0), ' '.join(map(str, out)), depth)


# ------------------------------------------------------------------ shared closures, instances
def closures(depth):
    mk = '''var mk = function(n) { var h = 0; return { inc: function() { n++; h++; return n; }, get: function() { return n*10+h; },
      set: function(x) { n = x; return h; }, sub: function() { var q = n; return { up: function() { q++; n += q; return q; }, see: function() { return q*1000+n; } }; } }; };
      var O = [mk(1), mk(5)]; var S = [null, null];\n'''
    ops = [(i, o) for i in (0, 1) for o in ('inc', 'get', 'set', 'sub', 'up', 'see')]
    for d in range(1, depth + 1):
        for seq in itertools.product(ops, repeat=d):
            st = [[1, 0, None], [5, 0, None]]
            js, out, ok = '', [], True
            for i, o in seq:
                n = st[i]
                if o == 'inc': n[0] += 1; n[1] += 1; js += 'T(O[%d].inc());' % i; out.append(n[0])
                elif o == 'get': js += 'T(O[%d].get());' % i; out.append(n[0] * 10 + n[1])
                elif o == 'set': js += 'T(O[%d].set(3));' % i; n[0] = 3; out.append(n[1])
                elif o == 'sub': js += 'S[%d] = O[%d].sub();' % (i, i); n[2] = [n[0]]
                elif n[2] is None: ok = False; break
                elif o == 'up': n[2][0] += 1; n[0] += n[2][0]; js += 'T(S[%d].up());' % i; out.append(n[2][0])
                else: js += 'T(S[%d].see());' % i; out.append(n[2][0] * 1000 + n[0])
            if not ok: continue
            for i in (0, 1):
                js += 'T(O[%d].get());' % i
                out.append(st[i][0] * 10 + st[i][1])
            yield Case('closures %s' % ' '.join('%s%d' % (o, i) for i, o in seq), mk + js + 'W();', ' '.join(map(str, out)), d)


# ------------------------------------------------------------------ calls
def calls():
    # the same function reached through every call form, with every number of arguments
    forms = {'plain': ('f(%s)', 0), 'member': ('o.f(%s)', 'o'), 'index': ("o['f'](%s)", 'o'), 'nested': ('w.o.f(%s)', 'o'), 'elem': ('w.l[1].f(%s)', 'o'),
             'call': ('f.call(p%s)', 'p'), 'apply': ('f.apply(p,[%s])', 'p'), 'mcall': ('o.f.call(p%s)', 'p'), 'mapply': ('o.f.apply(p,[%s])', 'p'),
             'bind': ('f.bind(p)(%s)', 'p'), 'mbind': ('o.f.bind(p)(%s)', 'p'), 'iife': ('(function(...) { return f.apply(this===undefined?null:p, arguments); })(%s)', 'p')}
    for nf in range(0, 4):
        for na in range(0, 6):
            for name, (form, this) in forms.items():
                if na < nf: continue
                if name == 'iife': continue
                formals = ['x%d' % i for i in range(nf)]
                argl = ','.join(str(i + 1) for i in range(na))
                if 'call(p' in form and argl: argl = ',' + argl
                body = "T(arguments.length); for (var i=0; i<arguments.length; i++) { T(arguments[i]); } %s %s return 77;" % (
                    ' '.join('T(%s);' % x for x in formals), "T(this.n);" if this else '')
                js = 'var f = function(%s...) { %s }; var o = {n:"o", f:f}, p = {n:"p", f:null}, w = {n:"w", o:o, l:[1,o]}; T(%s); W();' % (
                    ''.join(x + ',' for x in formals), body, form % argl)
                out = [na] + list(range(1, na + 1)) + list(range(1, nf + 1)) + ([this] if this else []) + [77]
                yield Case('call %s formals=%d args=%d' % (name, nf, na), js, ' '.join(map(str, out)))
    # bind with leading arguments, composed
    for k in range(0, 4):
        for j in range(0, 4):
            lead, rest = list(range(1, k + 1)), list(range(11, 11 + j))
            js = 'var f = function(...) { T(this.n); for (var i=0; i<arguments.length; i++) { T(arguments[i]); } }; f.bind({n:"q"}%s)(%s); W();' % (
                ''.join(',%d' % x for x in lead), ','.join(map(str, rest)))
            yield Case('bind lead=%d rest=%d' % (k, j), js, ' '.join(['q'] + [str(x) for x in lead + rest]))
    # formals and arguments[] name the same variable; each activation has its own
    for n in range(1, 5):
        for i in range(n):
            for who in ('arg', 'formal'):
                for rec in (0, 1, 2):
                    fs = ['x%d' % k for k in range(n)]
                    upd = 'arguments[%d] += 100;' % i if who == 'arg' else 'x%d += 100;' % i
                    js = 'var d = %d; var f = function(%s) { %s if (d-- > 0) { f(%s); } %s var g = function() { return %s; }; T(g()); }; f(%s); W();' % (
                        rec, ','.join(fs), upd, ','.join('x%d+1' % k for k in range(n)),
                        ' '.join('T(x%d); T(arguments[%d]);' % (k, k) for k in range(n)), '+'.join(fs), ','.join(str(k + 1) for k in range(n)))
                    out = []

                    def f(args, d):
                        args = list(args)
                        args[i] += 100
                        if d > 0: f([a + 1 for a in args], d - 1)
                        for a in args: out.extend([a, a])
                        out.append(sum(args))
                    f(range(1, n + 1), rec)
                    yield Case('alias n=%d i=%d %s rec=%d' % (n, i, who, rec), js, ' '.join(map(str, out)), rec + 1)
    # loop variables are one per function; a parameter is one per call
    for n in range(0, 5):
        yield Case('loopvar %d' % n, 'var fs=[]; (function(){ for (var i=0;i<%d;i++) { fs.push(function(){ return i; }); } })(); for (var j=0;j<fs.length;j++) { T(fs[j]()); } T("."); W();' % n,
                   ' '.join(['%d' % n] * n + ['.']))
        yield Case('loopcopy %d' % n, 'var fs=[]; for (var i=0;i<%d;i++) { (function(k){ fs.push(function(){ return k++; }); })(i); } for (var r=0;r<2;r++) { for (var j=0;j<fs.length;j++) { T(fs[j]()); } } T("."); W();' % n,
                   ' '.join([str(i) for i in range(n)] + [str(i + 1) for i in range(n)] + ['.']))
    # order of evaluation: callee, then arguments, then the call
    yield Case('order', 'var o={get f() { T("get"); return function(a,b) { T("run"); return a+b; }; }}; var v=function(x){ T("a"+x); return x; }; T((function(p,q){ T("run"); return p+q; })(v(1),v(2))); W();', 'a1 a2 run 3')
    # constructors and prototype chains
    for depth in range(1, 5):
        for own in itertools.product((0, 1), repeat=depth):
            for dele in (0, 1):
                js, exp = '', []
                for k in range(depth):
                    # (setPrototypeOf with an object that has no members takes that object's own prototype)
                    js += 'function C%d() { this.t%d = %d; } C%d.prototype.k%d = 1; ' % (k, k, k, k, k)
                    if k: js += 'Object.setPrototypeOf(C%d.prototype, C%d.prototype); ' % (k, k - 1)
                    if own[k]: js += 'C%d.prototype.who = function() { return "w%d"+this.id; }; ' % (k, k)
                js += 'var c = new C%d(), e = new C%d(); c.id = 1; e.id = 2; ' % (depth - 1, depth - 1)
                hit = [k for k in range(depth) if own[k]]
                if hit:
                    js += 'T(c.who()); T(e.who()); c.who = function() { return "own"; }; T(c.who()); T(e.who()); '
                    exp += ['w%d1' % hit[-1], 'w%d2' % hit[-1], 'own', 'w%d2' % hit[-1]]
                    if dele:
                        js += 'delete c.who; T(c.who()); '
                        exp += ['w%d1' % hit[-1]]
                for k in range(depth):
                    js += 'T(c instanceof C%d); ' % k
                    exp.append('true')
                js += 'function D() { } T(c instanceof D); W();'
                exp.append('false')
                for k in range(depth):
                    pass
                yield Case('proto own=%s del=%d' % (own, dele), js, ' '.join(exp), depth)


# ------------------------------------------------------------------ recursion
REC = {
    'direct': 'function r(n) { return n<=0 ? 0 : 1+r(n-1); }',
    'mutual': 'function s(n) { return n<=0 ? 0 : 1+r(n-1); } function r(n) { return n<=0 ? 0 : 1+s(n-1); }',
    'method': 'var ob={m:function(n) { return n<=0 ? 0 : 1+this.m(n-1); }}; function r(n) { return ob.m(n); }',
    'call': 'function r(n) { return n<=0 ? 0 : 1+r.call(null,n-1); }',
    'apply': 'function r(n) { return n<=0 ? 0 : 1+r.apply(null,[n-1]); }',
    'map': 'function r(n) { return n<=0 ? 0 : 1+[n-1].map(function(x) { return r(x); })[0]; }',
    'foreach': 'function r(n) { var q=0; if (n>0) { [1].forEach(function(x) { q=1+r(n-1); }); } return q; }',
    'sort': 'function r(n) { var q=0; if (n>0) { [2,1].sort(function(x,y) { q=1+r(n-1); return x-y; }); } return q; }',
    'reduce': 'function r(n) { return n<=0 ? 0 : [1,1].reduce(function(x,y) { return x+r(n-1); }); }',
    'new': 'function N(n) { this.d = 0; if (n>0) { var k = new N(n-1); this.d = k.d+1; } } function r(n) { return (new N(n)).d; }',
    'closure': 'function r(n) { var f = function(k) { return k<=0 ? 0 : 1+f(k-1); }; return f(n); }',
    'try': 'function r(n) { if (n<=0) { return 0; } var v, w; try { v = 1+r(n-1); } finally { w = n; } return v; }',
    'eval': 'function r(n) { return n<=0 ? 0 : 1+eval("r("+(n-1)+")"); }',
    'filter': 'function r(n) { var q=0; if (n>0) { [1].filter(function(x) { q=1+r(n-1); return true; }); } return q; }',
}


def recursion(c):
    """The limit is a constant of each form: calls below it succeed with the right result, calls above it raise,
    and neither changes the limit nor anything else afterwards."""
    for name, src in REC.items():
        def chk(got, name=name):
            ls = got.split('\n')
            if len(ls) < 3: return 'expected three sweeps, got %.300r' % got
            if not (ls[0] == ls[1] == ls[2]): return 'the reachable depth changes after the limit was hit: %.300r' % got
            w = ls[0].split()
            # 'ok D' with the first failing depth after D, errors named
            if w[0] != 'ok' or int(w[1]) < 15 or w[2] != 'then' or w[3] != '0': return 'unexpected %.300r' % got
            if ls[3] != 'after 10 3': return 'after the failures: %.300r' % got
            return None
        js = src + '''
        for (var sweep=0; sweep<3; sweep++) {
          var last=-1, bad=0, wrong=0;
          for (var d=0; d<=260; d++) {
            var got=-1;
            try { got = r(d); } catch(e) { got = -2; if ((''+e).indexOf('depth')<0) { wrong++; T(e); } }
            if (got === d) { if (bad) { wrong++; } last = d; }
            else { bad++; if (got !== -2) { wrong++; } }
          }
          puts('ok '+last+' then '+wrong);
          if (OUT.length) { puts(OUT.join('/').substr(0,200)); OUT=[]; }
        }
        puts('after '+r(10)+' '+[1,2,3].map(function(x) { return x; }).length);'''
        yield Case('recursion %s' % name, js, chk, 3 * 261)


# ------------------------------------------------------------------ exceptions out of callbacks
CB = {
    'forEach': ('a.forEach(function(x) { step(x); });', 'each'), 'map': ('a.map(function(x) { step(x); return x; });', 'each'),
    'filter': ('a.filter(function(x) { step(x); return true; });', 'each'), 'some': ('a.some(function(x) { step(x); return false; });', 'each'),
    'every': ('a.every(function(x) { step(x); return true; });', 'each'), 'find': ('a.find(function(x) { step(x); return false; });', 'each'),
    'findIndex': ('a.findIndex(function(x) { step(x); return false; });', 'each'),
    'reduce': ('a.reduce(function(p,x) { step(x); return p; }, 0);', 'each'),
    'reduceRight': ('a.reduceRight(function(p,x) { step(x); return p; }, 0);', 'rev'),
    'sort': ('a.sort(function(x,y) { step(0); return x-y; });', 'sort'),
    'apply': ('(function() { for (var i=0;i<a.length;i++) { step.apply(null,[a[i]]); } })();', 'each'),
    'getter': ('var g={get p() { step(a[K]); return 1; }}; for (var z=0;z<a.length;z++) { var q=g.p; }', 'each'),
    'setter': ('var g={get p() { return 1; }, set p(v) { step(v); }}; for (var z=0;z<a.length;z++) { g.p=a[z]; }', 'each'),
    'replace': ("a.join('').replace(/[0-9]/g, function(x) { step(x); return x; });", 'each'),
    'eval': ('for (var z=0;z<a.length;z++) { eval("step("+a[z]+")"); }', 'each'),
    'new': ('function N(x) { step(x); } for (var z=0;z<a.length;z++) { new N(a[z]); }', 'each'),
    'forof': ('for (var z of a) { step(z); }', 'each'), 'forin': ('for (var z in a) { step(a[z]); }', 'each'),
    'call': ('for (var z=0;z<a.length;z++) { step.call(null,a[z]); }', 'each'),
    'bind': ('var sb=step.bind(null); for (var z=0;z<a.length;z++) { sb(a[z]); }', 'each'),
}


def callbacks():
    for name, (js, order) in CB.items():
        for n in range(1, 6):
            for k in range(0, n + 1):           # throws at the k-th call; n = never
                for fin in ('', 'finally'):
                    a = list(range(1, n + 1))
                    out = []
                    if order == 'sort' and n < 2: continue
                    if order == 'sort' and k >= n - 1: continue
                    seen = a if order != 'rev' else a[::-1]
                    src = ("var a=%s, K=0; var step=function(x) { if (K==%d) { throw 'stop'+x; } K++; }; var s='';\n"
                           "var run=function() { %s };\n" % (a, k, js) +
                           "for (var t=0;t<2;t++) { K=0; try { run(); s+='done '; } catch(e) { s+=e+' '; } %s s+=K+' '; }\n" % ("finally { s+='f '; }" if fin else '') +
                           # the array and the rest still work normally
                           "a.push(9); a.unshift(0); a.splice(1,1); a.pop(); a.sort(function(x,y) { return y-x; }); a.forEach(function(x) { s+=x; }); puts(s);")
                    e = ''
                    for t in range(2):
                        if k >= n and order != 'sort': e += 'done '
                        else: e += 'stop%d ' % (0 if order == 'sort' else seen[k])
                        if fin: e += 'f '
                        e += '%d ' % (n if k >= n else k)
                    b = [0] + a[1:]
                    yield Case('throw from %s n=%d at=%d %s' % (name, n, k, fin), src, e + ''.join(map(str, sorted(b, reverse=True))), 2)


def main():
    c = Ctx('L03')
    cases = list(scopes(c.thorough)) + list(deepnests(c.thorough)) + list(closures(4 if c.thorough else 3)) + list(calls()) + list(callbacks())
    c.run_cases(cases, 300, PROLOG)
    c.run_cases(list(recursion(c)), 1, PROLOG)
    c.cov['states'] = len(c.outcomes)
    c.finish()


if __name__ == '__main__':
    main()
