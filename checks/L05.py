"""Exceptions: every small tree of raises, handlers and ways for an exception to travel, against a
reference interpreter that knows what each catch must receive."""
import itertools, json, os
from concurrent.futures import ThreadPoolExecutor
from mc.core import Ctx, Case, NCPU

# value = (kind, text shown, is the object O)
THROWS = [('7', 'number 7'), ("'ab'", 'string "ab"'), ("''", 'string ""'), ("'\\u0041\\tq\"'", 'string "A\\tq\\""'), ('true', 'boolean true'), ('false', 'boolean false'),
          ('null', 'null null'), ('NaN', 'number NaN'), ('-1.5', 'number -1.5'), ('[1,"k",[2]]', 'array [ 1, "k", [ 2 ] ]'), ('{a:{b:1},c:"d"}', 'object { "a":{ "b":1 }, "c":"d" }'),
          ('O', 'object { "o":1 } same'), ('A', 'array [ 1 ] same'), ('F', 'function same'), ('[]', 'array []'), ('{}', 'object {}'), ("'%s %n zz'", 'string "%s %n zz"'),
          ("'x'.repeat(600)", 'string "%s"' % ('x' * 600)), ('0', 'number 0')]
ERRS = [('zz%d();', "can not execute expression: 'zz%d' not a function"), ('nul.x;', 'converting a undefined/null value to object'),
        ('ar(1,2,3);', 'got 3 args, expected 1, calling function ar(a)'), ("'a'.repeat(-1);", 'count out of range'),
        ("File.read('/nonexistent%d');", "File open failed '/nonexistent%d'"), ("format('%%d','x');", 'format error at "%%d": expected number argument'),
        ('1+U.z;', 'operand value to + is undefined'), ('for (var zi of 3) { };', 'operand not an array'), ('ar();', 'got 0 args, expected 1, calling function ar(a)'),
        ('new zy%d();', "can not execute expression: 'zy%d' not a function"), ("U.q.r;", 'converting a undefined/null value to object'),
        ("require('nomod%d');", "failed require('nomod%d')"), ("'a'.replace(/a/, function(m) { zq%d(); });", "can not execute expression: 'zq%d' not a function")]

PROLOG = r'''
var O = {o:1}, A = [1], U = {}, nul = null, F = function() { };
function ar(a) { return a; }
function W(w:any) { var e = w[0], t = typeof e;
  if (t==='function') { return 'function'+(e===F ? ' same' : ''); }
  if (t==='number') { return 'number '+e; }
  return t+' '+JSON.stringify(e)+(t==='object' && e===O || t==='array' && e===A ? ' same' : ''); }
var RS = [];
function RT() { var f = RS.pop(); f(); }
function L(s:any) { puts(s); }
'''
# what the file level has and a sub-interpreter has not
PRO_TOP = r'''
var SI = new Interp({scriptStr:%s});
SI.alias('L', L, null);
function AL(f) { SI.alias('al', f, null); SI.eval('al();'); }
''' % json.dumps(PROLOG.replace('\n', ' ').replace('function L(s:any) { puts(s); }', ''))

CARRY = {
    'call': '(function() { %s })();', 'meth': '({m:function() { %s }}).m();', 'new': 'var c# = function() { %s }; new c#();', 'fcall': '(function() { %s }).call(null);',
    'apply': '(function() { %s }).apply(null,[]);', 'bind': '(function() { %s }).bind(null)();', 'forEach': '[1,2].forEach(function(x) { %s throw "NO"; });',
    'map': '[1].map(function(x) { %s return 1; });', 'filter': '[1].filter(function(x) { %s return true; });', 'some': '[1].some(function(x) { %s return true; });',
    'every': '[1].every(function(x) { %s return true; });', 'find': '[1].find(function(x) { %s return true; });', 'reduce': '[1,2].reduce(function(a,b) { %s return 1; });',
    'reduceRight': '[1,2].reduceRight(function(a,b) { %s return 1; });', 'findIndex': '[1].findIndex(function(x) { %s return true; });',
    'sort': '[2,1].sort(function(a,b) { %s return 0; });', 'replace': '"a".replace(/a/,function(m) { %s return ""; });', 'arrow': '(() => { %s })();',
    'arg': 'ar((function() { %s return 1; })());', 'oper': 'var v# = 1 + (function() { %s return 1; })();', 'cond': 'if ((function() { %s return true; })()) { var q#=1; };',
    'lit': 'var v# = {a:1, b:[2, (function() { %s return 3; })()]};', 'sub': 'var v# = A[(function() { %s return 0; })()];',
    'with': 'with ({w:1}) { %s };', 'for': 'for (var i#=0; i#<1; i#++) { %s };', 'while': 'var i#=0; while (i#<1) { i#++; %s };', 'forin': 'for (var i# in {k:1}) { %s };',
    'forof': 'for (var i# of [1]) { %s };', 'do': 'do { %s } while (false);', 'switch': 'switch (1) { case 1: %s };', 'if': 'if (true) { %s };',
    'replstr': '"aba".replace("a",function(m) { %s return ""; });', 'replg': 'var n#=0; "abaca".replace(/a/g,function(m) { if (n#++==1) { %s }; return ""; });',
    'replm': '"abcab".replace(/(a)(b)/,function(m,x,y,o,s) { %s return ""; });', 'replmg': 'var n#=0; "abcab".replace(/(a)(b)/g,function(m,x,y,o,s) { if (n#++==1) { %s }; return ""; });',
    'loopcall': 'for (var i#=0; i#<1; i#++) { ar((function() { %s return 1; })()); };', 'erec': 'RS.push(function() { %s }); eval("RT();");', 'ret': '(function() { return (function() { %s return 1; })(); })();',
}
SPECIAL = ['eval', 'evalf', 'alias', 'subeval', 'timer']
FEW = ['call', 'erec', 'forEach', 'sort', 'eval', 'with', 'timer', 'alias', 'for', 'oper']


class Raise(Exception):
    def __init__(s, v): s.v = v


class Prog:
    """source and expected output of one tree"""
    def __init__(self, n):
        self.k = n
        self.u = 0

    def uid(self):
        self.u += 1
        return self.u

    def go(self, t):
        """-> (source, fn(out) which runs the reference, raising Raise)"""
        k = t[0]
        if k == 'nop':
            return 'L("n");', lambda o: o.append('n')
        if k == 'thr':
            src, shown = THROWS[(t[1] if t[1] is not None else self.next()) % len(THROWS)]
            def f(o): raise Raise(shown)
            return 'throw %s;' % src, f
        if k == 'err':
            src, msg = ERRS[(t[1] if t[1] is not None else self.next()) % len(ERRS)]
            i = self.uid()
            fill = lambda s: s % (i,) if s.replace('%%', '').count('%d') else s % ()
            txt = 'string ' + json.dumps(fill(msg))
            def f(o): raise Raise(txt)
            return fill(src), f
        if k in CARRY:
            s, f = self.go(t[1])
            i = str(self.uid())
            a, b = CARRY[k].replace('#', i).split('%s')
            if k == 'forEach':
                def g(o):
                    f(o); o.append('d'); raise Raise('string "NO"')
            else:
                def g(o):
                    f(o); o.append('d')
            return a + s + ' L("d");' + b, g
        if k in ('eval', 'evalf', 'alias', 'timer', 'subeval'):
            s, f = self.go(t[1])
            s += ' L("d");'
            def g(o):
                f(o); o.append('d')
            if k == 'eval': return 'eval(%s);' % json.dumps(s), g
            if k == 'evalf': return '(function() { eval(%s); })();' % json.dumps(s), g
            if k == 'alias':
                def ga(o):
                    try: g(o)
                    except Raise as e: raise Raise(self.copy(e.v))
                return 'AL(function() { %s });' % s, ga
            if k == 'subeval':
                def ga(o):
                    try: g(o)
                    except Raise as e: raise Raise(self.copy(e.v))
                return 'SI.eval(%s);' % json.dumps(s), ga
            def gt(o):
                try: g(o)
                except Raise: pass
            return 'setTimeout(function() { %s }, 0); update();' % s, gt
        if k in ('tc', 'tf', 'tcf'):
            a, fa = self.go(t[1])
            h = None
            i = self.uid()
            src = 'try { %s L("d"); }' % a
            if 'c' in k:
                h, fh = self.go(t[2])
                src += ' catch(e%d) { L("c "+W([e%d])); %s L("h "+W([e%d])); }' % (i, i, h, i)
            if 'f' in k[1:]:
                z, fz = self.go(t[-1])
                src += ' finally { L("f"); %s L("g"); }' % z
            def g(o):
                pend = None
                try:
                    fa(o); o.append('d')
                except Raise as e:
                    if h is None: pend = e
                    else:
                        try:
                            o.append('c ' + e.v)
                            fh(o)
                            o.append('h ' + e.v)
                        except Raise as e2: pend = e2
                if 'f' in k[1:]:
                    o.append('f'); fz(o); o.append('g')
                if pend: raise pend
            return src + ';', g
        raise ValueError(t)

    def next(self):
        self.k += 1
        return self.k

    @staticmethod
    def copy(v):
        if v == 'function same': return 'FUNC'  # becomes a string: callers avoid it
        return v[:-5] if v.endswith(' same') else v


for _m, _r in (('forEach', 'true'), ('map', '1'), ('filter', 'true'), ('some', 'false'), ('every', 'true'), ('find', 'false'), ('findIndex', 'false')):
    for _k in (1, 2):
        CARRY['%s%d' % (_m, _k)] = 'var n#=0; [5,6,7].%s(function(x) { if (n#++==%d) { %%s }; return %s; });' % (_m, _k, _r)
CARRY['reduce1'] = 'var n#=0; [5,6,7].reduce(function(a,b) { if (n#++==1) { %s }; return 1; });'
CARRY['reduceRight1'] = CARRY['reduce1'].replace('reduce', 'reduceRight')
CARRY['sort1'] = 'var n#=0; [5,7,6,4].sort(function(a,b) { if (n#++==1) { %s }; return a-b; });'

CANARY = 'try { zz0(); } catch(e0) { L(W([e0])); }; try { throw 5; } catch(e0) { L(W([e0])); };'
CANEXP = ['string "can not execute expression: \'zz0\' not a function"', 'number 5']


def has(t, names):
    return isinstance(t, tuple) and (t[0] in names or any(has(x, names) for x in t[1:]))


def insub(t, names):
    """is there one of names below a subeval"""
    return isinstance(t, tuple) and ((t[0] == 'subeval' and any(has(x, names) for x in t[1:])) or any(insub(x, names) for x in t[1:]))


def case(t, n, seen):
    p = Prog(n)
    try:
        s, f = p.go(t)
    except ValueError:
        raise
    if insub(t, ('alias', 'subeval', 'timer')): return None
    o = []
    if has(t, ('alias', 'subeval')) and 'throw F;' in s: return None
    try:
        f(o); o.append('n')
    except Raise as e:
        o.append('C ' + e.v)
    seen.add(tuple(o))
    src = 'try { %s L("n"); } catch(e0) { L("C "+W([e0])); }; %s' % (s, CANARY)
    return Case(src[:900], src, '\n'.join(o + CANEXP), len(o) + 2)


def leaves():
    return [('nop',), ('thr', None), ('err', None)]


def tries(A, B, Z):
    for a in A:
        for b in B: yield ('tc', a, b)
        for z in Z: yield ('tf', a, z)
        for b in B:
            for z in Z: yield ('tcf', a, b, z)


def uniq(g):
    s = set()
    for t in g:
        if t not in s:
            s.add(t)
            yield t


def trees(few, deep):
    L = leaves()
    S1 = L + [(w, l) for w in few for l in L] + list(tries(L, L, L))
    S2 = list(uniq([(w, s) for w in few for s in S1] + list(tries(S1, L, L)) + list(tries(L, S1, L)) + list(tries(L, L, S1))))
    yield from S1
    yield from S2
    if deep:
        yield from uniq(itertools.chain(((w, s) for w in few for s in S2), tries(S2, L[:2], L[:2]), tries(L[1:], S2, L[:1]), tries(L[1:], L[1:], S2)))


def main():
    c = Ctx('L05')
    seen = set()

    def gen():
        n = 0
        allw = list(CARRY) + SPECIAL
        raises = [('thr', i) for i in range(len(THROWS))] + [('err', i) for i in range(len(ERRS))]
        # every raise through every carrier and handler
        for r in raises:
            for w in allw:
                for t in ((w, r), ('tc', (w, r), ('nop',)), ('tf', (w, r), ('nop',)), (w, ('tf', r, ('nop',))), (w, ('tc', r, r)), ('tcf', r, (w, r), (w, ('nop',))),
                          ('tf', r, (w, ('tc', ('err', None), ('nop',))))):
                    n += 1
                    yield case(t, n, seen)
        # every pair of carriers
        for w1 in allw:
            for w2 in allw:
                for r in (raises if c.thorough else [('thr', None), ('err', None), ('err', None)]):
                    n += 1
                    yield case((w1, (w2, r)), n, seen)
                    yield case((w1, ('tc', (w2, r), ('err', None))), n, seen)
        for t in trees(FEW, c.thorough):
            n += 1
            yield case(t, n, seen)
            if t[0] in ('tc', 'tf', 'tcf'):
                yield case(('subeval', t), n, seen)
        # the same place raises again and again, once inside and once outside of a handler
        for r in raises:
            for w in allw:
                if w in ('timer',): continue
                p = Prog(n)
                try: s, f = p.go((w, r))
                except ValueError: continue
                o = []
                try: f(o)
                except Raise as e: o.append('C ' + e.v)
                if has((w,), ('alias', 'subeval')) and 'throw F;' in s: continue
                src = 'var g = function() { %s }; for (var j=0; j<3; j++) { try { g(); } catch(e0) { L("C "+W([e0])); }; setTimeout(g, 0); update(); }; %s' % (s, CANARY)
                exp = (o + o[:-1]) * 3
                yield Case(src[:900], src, '\n'.join(exp + CANEXP), len(exp))

    c.run_cases((k for k in gen() if k), 400, PROLOG + PRO_TOP)

    # memory: the same programs under AddressSanitizer
    def san():
        n = 0
        few = [w for w in FEW if w != 'sort']  # AddressSanitizer's qsort compares more often
        for t in trees(few, False):
            n += 1
            if c.thorough or n % 9 == 0: yield case(t, n, seen)
        for w in list(CARRY) + SPECIAL:
            if w.startswith('sort'): continue
            for r in (('thr', 9), ('thr', 11), ('err', 0), ('err', 2)): yield case((w, ('tcf', r, r, ('nop',))), n, seen)

    c.run_cases((k for k in san() if k), 100, PROLOG + PRO_TOP, kind='asan', timeout=120)

    # nothing catches: the program ends there, with a message and a failure code
    def top(t):
        p = Prog(len(str(t)))
        s, f = p.go(t)
        o = []
        fails = False
        try: f(o); o.append('after')
        except Raise as e: fails = e.v
        text = PROLOG + PRO_TOP + s + '\nL("after");\n'
        r = c.js(text)
        out = r[1].decode('utf8', 'replace').strip('\n') if isinstance(r[1], bytes) else r[1].strip('\n')
        err = r[2].decode('utf8', 'replace') if isinstance(r[2], bytes) else r[2]
        want = '\n'.join(o)
        m = None
        if out != want: m = 'expected output %r and got %r' % (want[:500], out[-500:])
        elif bool(fails) != (r[0] != 0): m = 'exit code is %s' % r[0]
        elif fails and fails.startswith('string ') and json.loads(fails[7:]) not in err: m = 'the message on stderr is %r' % err[-300:]
        with c.lock:
            c.cov['traces_validated_against_impl'] += 1
        if m:
            r2 = c.js(text)
            if r2[:2] == r[:2]: c.report(Case(s[:500], text, ''), out, 'nothing catches it: ' + m, text)

    tops = [t for t in itertools.islice(trees(FEW, False), 0, None, 1 if c.thorough else 17)] + [('thr', i) for i in range(len(THROWS))] + [('err', i) for i in range(len(ERRS))]
    c.build('std')
    with ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(top, [t for t in tops if not insub(t, ('alias', 'subeval', 'timer'))]))
    c.cov['states'] = len(seen)
    c.cov['depth'] = 3 if c.thorough else 2
    c.assumptions.append('undefined as the thrown value and syntax errors in eval, which have no value, are outside')
    c.finish()


if __name__ == '__main__':
    main()
