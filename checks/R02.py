"""Sub-interpreters: values that cross between interpreters, histories of aliases and of lifetimes, isolation and
limits, against reference models."""
import itertools, json
from mc.core import Ctx, Case

PRO = r'''
function W(w:any) { var e = w[0], t = typeof e; if (t==='function') { return 'function'; }
  if (t==='number') { return 'number '+e; }
  if (t==='array') { return 'array('+e.length+') '+JSON.stringify(e); }
  return t+' '+JSON.stringify(e); }
function MUT(v:any) { var t = typeof v, i; if (t==='array') { for (i=0; i<v.length; i++) { MUT(v[i]); } v.push(99); if (v.length>1) { v[0]='m'; } }
  else if (t==='object') { for (i of Object.keys(v)) { MUT(v[i]); } v.zz = 99; } }
'''
J1 = json.dumps(PRO.replace('\n', ' '))
PROLOG = PRO + r'''
var J1 = %s;
function T(n, f) { try { puts(n+': '+f()); } catch(e) { puts(n+'!! '+W([e])); } }
''' % J1

# leaf: (source, W at the top, JSON as an element or None, JSON as a member or None (dropped))
def leaf(src, w, js=None, drop=False): return src, w, js if js is not None else w.split(' ', 1)[1], drop
LEAVES = [leaf('7', 'number 7'), leaf('-0.5', 'number -0.5'), leaf('0', 'number 0'), leaf('NaN', 'number NaN', 'null'), leaf('Infinity', 'number Infinity', 'null'), leaf('-Infinity', 'number -Infinity', 'null'),
    leaf('2147483648', 'number 2147483648'), leaf('-4294967297', 'number -4294967297'), leaf('9007199254740991', 'number 9007199254740991'), leaf('1e300', 'number 1e+300'), leaf('1e-7', 'number 1e-07'), leaf('0.1', 'number 0.1'),
    leaf('true', 'boolean true'), leaf('false', 'boolean false'), leaf('null', 'null null'), leaf('undefined', 'undefined undefined', 'null', True),
    leaf("''", 'string ""'), leaf("'ab'", 'string "ab"'), leaf("'a\\u0041\\t\\n\"\\\\z'", 'string "aA\\t\\n\\"\\\\z"'), leaf("'\\u0000z'", 'string "\\u0000z"'), leaf("'p\\u0000'", 'string "p\\u0000"'),
    leaf("'\\u00e9\\u20ac'", 'string "\\u00e9\\u20ac"'), leaf("'[1]'", 'string "[1]"'), leaf("'null'", 'string "null"'), leaf("'7'", 'string "7"'), leaf("'%s%n'", 'string "%s%n"'), leaf("'/x/'", 'string "/x/"'), leaf("'</a>\\''", 'string "</a>\'"'),
    leaf('/a\\/b"c/gi', 'string "/a\\\\/b\\"c/gi"'), leaf('new String("bx")', 'string "bx"'), leaf('new Number(4)', 'number 4'), leaf('new Boolean(false)', 'boolean false')]
LENS = [99, 100, 101, 127, 128, 199, 200, 255, 256, 257, 1000, 1023, 1024, 4095, 4096, 8192, 70000]
BASE = LEAVES + [leaf("'x'.repeat(%d)" % n, 'string "%s"' % ('x' * n)) for n in LENS]


def st(src, js, n=None):
    return (src, ('array(%d) %s' % (n, js)) if n is not None else 'object ' + js, js, False)


def structs(ls):
    for s, w, j, drop in ls:
        yield st('[%s]' % s, '[ %s ]' % j, 1)
        yield st('{k:%s}' % s, '{}' if drop else '{ "k":%s }' % j)
        yield st('{a:1,b:[%s,[],%s],z:{"":null,"q \\"":%s}}' % (s, s, s), '{ "a":1, "b":[ %s, [], %s ], "z":{ "":null%s } }' % (j, j, '' if drop else ', "q \\"":%s' % j))
        yield st('[[1,%s],{k:{}},%s]' % (s, s), '[ [ 1, %s ], { "k":{} }, %s ]' % (j, j), 3)


BIG = [st('[%s]' % ','.join(map(str, range(n))), '[ %s ]' % ', '.join(map(str, range(n))), n) for n in (100, 101, 257, 1025)] + \
      [st('{%s}' % ','.join('k%05d:%d' % (i, i) for i in range(n)), '{ %s }' % ', '.join('"k%05d":%d' % (i, i) for i in range(n))) for n in (99, 100, 101, 300)] + \
      [st('[' * d + '1' + ']' * d, '[ ' * d + '1' + ' ]' * d, 1) for d in (10, 50, 90)] + [st('[]', '[]', 0), st('{}', '{}'), st('[[],{}]', '[ [], {} ]', 2), st('{"length":3}', '{ "length":3 }'), st('{"if":1,"a b":2,"0":3}', '{ "0":3, "a b":2, "if":1 }')]

def rxown(v): return v[0].startswith('/')  # a regexp is still one on its own side


def chan(v):
    """lines of one value through every channel"""
    src, w, j, drop = v
    struct = w.startswith(('array', 'object'))
    own = 'regexp ' + j if rxown(v) else 'object {  }' if src == '{k:undefined}' else w
    viaj = w if struct else 'null null' if j == 'null' else w       # inside the JSON of an argument list
    S = ['var s = new Interp({scriptStr:J1}), V = [%s], G;' % src]
    E = []
    q = json.dumps(src)
    def t(n, body, exp): S.append("T('%s', function() { %s });" % (n, body)); E.append('%s: %s' % (n, exp))
    S.append("s.eval('var q = ('+%s+'), o = {k:[0,('+%s+')]}, R; function g() { return q; } function h(x:any) { R = W([x]); MUT(x); return x; }');" % (q, q))
    isu = src == 'undefined'
    t('eval', "return W([s.eval('(q)')]);", w)
    t('lit', "return W([s.eval('var e_ = ('+%s+');e_')]);" % q, w)
    t('value', "var c = s.value('q'); if (typeof c==='array' || typeof c==='object') { MUT(c); } return W([s.value('q')]);" if not isu else "return W([s.value('q')]);", w)
    t('dot', "return W([s.value('o.k.1')]);", w)
    t('up', "return W([s.uplevel('q', 0)]);", w)
    t('call', "return W([s.call('g',[],true)]);", w)
    t('back', "s.eval('MUT(q);'); return W([V[0]]);" if not isu else "return 'x';", own if not isu else 'x')
    S.append("s.eval('q = ('+%s+');');" % q)
    t('arg', "s.call('h',V,true); return W([V[0]])+' '+s.value('R');" if not isu else "s.call('h',V,true); return s.value('R');", ('%s %s' % (own, viaj)) if not isu else viaj)
    if not struct:
        t('echo', "return W([s.call('h',V,true)]);", viaj)
    t('alarg', "var r; s.alias('al', function(x:any) { r=W([x]); MUT(x); return x; }, null); s.eval('al(q);'); return r;" if not isu else "var r; s.alias('al', function(x:any) { r=W([x]); }, null); s.eval('al(undefined);'); return r;", viaj)
    if not isu:
        t('alkeep', "return W([s.value('q')])+s.eval('W([q])');", w + own)
        t('alret', "s.alias('al2', function() { return V[0]; }, null); s.eval('R=al2(); MUT(R); R=W([al2()]);'); return s.value('R')+W([V[0]]);", w + own)
        t('alpre', "var r; s.alias('al3', function(x:any,y:any) { r=W([x])+(typeof x===typeof V[0] && x==V[0])+W([y]); }, V); s.eval('al3(5);'); s.eval('al3(6);'); return r;", own + PREOK(v) + 'number 6')
        t('throw', "try { s.eval('throw (q);'); return 'NO'; } catch(e) { return W([e]); }", w)
        t('althrow', "s.alias('al4', function() { throw (V[0]); }, null); s.eval('try { al4(); } catch(e) { R=W([e]); };'); return s.value('R');", w)
        t('udata', "var t = new Interp({udata:{k:[V[0]]},scriptStr:J1}); return t.eval('var z=W([Interp.conf(\"udata\").k[0]]);z');", viaj)
    t('two', "s.eval('var y = new Interp(), yv; y.eval('+JSON.stringify(%s)+'); yv = y.value(\"q\");'); return W([s.value('yv')]);" % json.dumps('var q = (%s);' % src), w)
    t('two2', "s.alias('pp', function(x:any) { return x; }, null); return s.eval('var R3 = \"none\"; y.alias(\"yy\", pp, null); R3 = y.eval(\"yy(q)\"); W([R3])');" if not isu else "return 1;", viaj if not isu else '1')
    return S, E


def PREOK(v):
    return 'true' if v[0] not in ('NaN',) else 'false'


def part_values(x):
    base = BASE if x.thorough else BASE
    vals = list(base) + list(structs(BASE if x.thorough else [b for b in BASE if len(b[1]) < 300])) + BIG
    if x.thorough: vals += list(structs(list(structs([b for b in BASE if len(b[1]) < 40 and b[0] != 'undefined']))))
    out = []
    for v in vals:
        S, E = chan(v)
        out.append(Case('value ' + v[0][:60], '\n'.join(S), '\n'.join(E), n=len(E)))
    return out


# ------------------------------------------------------------------ alias histories
ALPRO = PROLOG + r'''
var s, D = 0;
function sh(a:any, b:any) { return (typeof a==='undefined' ? '-' : JSON.stringify(a))+(typeof b==='undefined' ? '-' : JSON.stringify(b)); }
function F1(a:any=void, b:any=void) { return 'F1'+sh(a,b); }
function F2(a:any=void, b:any=void) { return 'F2'+sh(a,b); }
function FD(a:any=void, b:any=void) { s.alias('a', null, null); return 'FD'+sh(a,b); }
function FR(a:any=void, b:any=void) { s.alias('a', F1, [8]); return 'FR'+sh(a,b); }
function FN(a:any=void, b:any=void) { if (++D>1) { return 'FN'; } return 'N('+s.eval('a(4)')+')'; }
function FT(a:any=void, b:any=void) { throw ['FT',a,b]; }
function FV(a:any=void, b:any=void) { return s.eval('r')===null; }
var FNS = {F1:F1,F2:F2,FD:FD,FR:FR,FN:FN,FT:FT};
function X(src) { D = 0; try { puts(src+': '+W([s.eval(src)])); } catch(e) { puts(src+'! '+W([e])); } }
function Q(n) { var f = s.alias(n), r='none', k; for (k in FNS) { if (typeof f === 'function' && f===FNS[k]) { r = k; } } puts('q'+n+' '+r+W([s.alias(n,null)])+JSON.stringify(s.alias())); }
'''
OPS = {'1a': "s.alias('a',F1,null);", '2a': "s.alias('a',F2,[7,{k:1}]);", 'Da': "s.alias('a',FD,null);", 'Ra': "s.alias('a',FR,[3]);", 'Na': "s.alias('a',FN,null);", 'Ta': "s.alias('a',FT,[]);",
       '1b': "s.alias('b',F1,[1]);", '2b': "s.alias('b',F2,[]);", '-a': "s.alias('a',null,null);", '-b': "s.alias('b',null,null);", 'q': "Q('a'); Q('b');",
       'xa': "X('a()');", 'ya': "X('a([1])');", 'xb': "X('b(\"t\")');", 'ra': "X('r=a;2');", 'xr': "X('r(1)');", 'rb': "X('var m={f:b}; m.f(2)');"}
SETS = {'1a': ('a', 'F1', None), '2a': ('a', 'F2', ['7', '{ "k":1 }']), 'Da': ('a', 'FD', None), 'Ra': ('a', 'FR', ['3']), 'Na': ('a', 'FN', None), 'Ta': ('a', 'FT', []), '1b': ('b', 'F1', ['1']), '2b': ('b', 'F2', [])}


class Al:
    def __init__(m): m.t = {}; m.gen = 0; m.r = None; m.D = 0
    def set(m, n, f, args): m.gen += 1; m.t[n] = (m.gen, f, args)
    def live(m, g): return next((v for v in m.t.values() if v[0] == g), None)

    def call(m, ent, args):
        """-> ('ok', W text) or ('ex', W text)"""
        g, f, pre = ent
        a = (pre or []) + args
        if len(a) > 2: return 'ex', 'string "got %d args, expected 0-2, calling function %s(a:any=undefined, b:any=undefined)"' % (len(a), f)
        a = a + ['-'] * (2 - len(a))
        txt = f + a[0] + a[1]
        if f == 'FT':
            el = [x if x != '-' else 'null' for x in a]
            return 'ex', 'array(3) [ "FT", %s ]' % ', '.join(el)
        if f == 'FD': m.t.pop('a', None)
        if f == 'FR': m.set('a', 'F1', ['8'])
        if f == 'FN':
            m.D += 1
            if m.D > 1: return 'ok', 'FN'
            k, v = m.byname('a', ['4'])
            return (k, v) if k == 'ex' else ('ok', 'N(%s)' % v)
        return 'ok', txt

    def byname(m, n, args):
        if n not in m.t: return 'ex', 'string "can not execute expression: \'%s\' not a function"' % n
        return m.call(m.t[n], args)


def alias_hist(h):
    m, S, E = Al(), ["s = new Interp({scriptStr:J1+'var r=null;'});"], []
    def out(src, r):
        E.append(src + (': string ' + json.dumps(r[1]) if r[0] == 'ok' else '! ' + r[1]))
    for op in h:
        S.append(OPS[op])
        m.D = 0
        if op in SETS: m.set(*SETS[op])
        elif op in ('-a', '-b'): m.t.pop(op[1], None)
        elif op == 'q':
            for n in 'ab':
                e = m.t.get(n)
                if not e: E.append('q%s noneundefined undefined%s' % (n, json.dumps(sorted(m.t)).replace('[', '[ ').replace(']', ' ]') if m.t else '[]'))
                else: E.append('q%s %s%s%s' % (n, e[1], 'undefined undefined' if e[2] is None else 'array(%d) %s' % (len(e[2]), '[ %s ]' % ', '.join(e[2]) if e[2] else '[]'), '[ %s ]' % ', '.join('"%s"' % k for k in sorted(m.t))))
        elif op == 'xa': out('a()', m.byname('a', []))
        elif op == 'ya': out('a([1])', m.byname('a', ['[ 1 ]']))
        elif op == 'xb': out('b("t")', m.byname('b', ['"t"']))
        elif op == 'ra':
            if 'a' in m.t: m.r = m.t['a'][0]; E.append('r=a;2: number 2')
            else: m.r = 'gone'; E.append(None)
        elif op == 'rb':
            e = m.t.get('b')
            if e: out('var m={f:b}; m.f(2)', m.call(e, ['2']))
            else: E.append(None)
        elif op == 'xr':
            if m.r in (None, 'gone'): E.append(None)
            else:
                e = m.live(m.r)
                out('r(1)', m.call(e, ['1']) if e else ('ex', 'string "alias was deleted"'))
    return S, E


def part_alias(x):
    hs = [h for d in (1, 2, 3) for h in itertools.product(OPS, repeat=d)]
    if x.thorough: hs = list(itertools.product(OPS, repeat=4)) + hs
    else:
        few = ['1a', '2a', 'Ra', 'Da', '-a', 'ra', 'xr', 'xa']
        hs += list(itertools.product(few, repeat=4))
    out = []
    for h in hs:
        S, E = alias_hist(h)
        def ck(got, E=E):
            L = got.split('\n') if got else []
            if len(L) != len(E): return 'want %r' % E
            for a, b in zip(E, L):
                if b.startswith('#'): return 'broken'
                if a is not None and a != b: return 'want %r' % a
        out.append(Case('alias ' + ','.join(h), '\n'.join(S), ck, n=len(h)))
    return out


# ------------------------------------------------------------------ lifetimes
LIFEPRO = PROLOG + r'''
var X = null, K = 'none';
function P(n, f) { try { puts(n+': '+W([f()])); } catch(e) { puts(n+'! '+W([e])); } }
function UP(a:any=void) { K = a; return [a, 'u']; }
function DR(a:any=void) { X = null; return 'dr'; }
function EX(a:any=void) { X.eval('exit();'); return 'ex'; }
function KEEP() { var o = X; X = null; return o.eval('v'); }
'''
NX = "X = new Interp({scriptStr:J1+'var v=[0],y=null; function qf(x) { v.push(x); return v.length; }'});"
LIFE = {'nX': NX + "puts('nX');", 'dX': "X = null;", 'eX': "X.eval('exit(1); 5')", 'sX': "X.eval('v.push([1]);v.length')", 'gX': "(K=X.value('v'))", 'pK': 'K', 'nY': "X.eval('y=new Interp({scriptStr:\"var w=[5];\"});6')",
    'gY': "(K=X.eval('y.value(\"w\")'))", 'mY': "X.eval('y.eval(\"w.push(1);w.length\")')", 'eY': "X.eval('y.eval(\"exit(); 7\");8')", 'dY': "X.eval('y=null;9')",
    'aU': "(X.alias('up',UP,null),X.alias('dr',DR,null),X.alias('ex',EX,null),X.alias('kp',KEEP,null),1)", 'cU': "X.eval('up(v)')", 'cD': "X.eval('dr()')", 'cE': "X.eval('ex()')", 'cK': "X.eval('kp()')",
    'YU': "X.eval('y.alias(\"up\",up,null);10')", 'YD': "X.eval('y.alias(\"up\",dr,null);10')", 'YE': "X.eval('y.alias(\"up\",ex,null);10')", 'cY': "X.eval('y.eval(\"up(w)\")')",
    'tX': "X.eval('setTimeout(function() { v.push(\"t\"); },0);11')", 'uX': "X.eval('update(1);12')", 'uP': "(update(1),13)", 'thX': "X.eval('throw v;')", 'qX': "(X.call('qf',['q']),14)", 'wX': "X.call('qf',['w'],true)", 'f': "(X.info(),typeof X.conf('name'))"}


def js(v): return json.dumps(v) if not isinstance(v, list) else '[ %s ]' % ', '.join(js(i) for i in v) if v else '[]'
def wv(v):
    if isinstance(v, str): return 'string ' + json.dumps(v)
    if v is None: return 'null null'
    if isinstance(v, list): return 'array(%d) %s' % (len(v), js(v))
    return 'number %d' % v


class Gone(Exception): pass


class Life:
    def __init__(m): m.X = None; m.K = 'none'

    def fresh(m): return {'v': [0], 'y': None, 'gone': False, 'al': 0, 't': 0}

    def step(m, op):
        """expected text of one step; None = any failure"""
        import copy
        if op == 'nX': m.X = m.fresh(); return 'nX'
        ok = lambda v: '%s: %s' % (op, wv(v))
        U = '%s: undefined undefined' % op
        if op == 'dX': m.X = None; return ok(None)
        if op == 'pK': return ok(m.K)
        if op == 'uP': return ok(13)
        X = m.X
        if X is None: return op + '! string "converting a undefined/null value to object"'
        GONE = op + '! string "Sub-interp gone"'
        if op == 'f': return ANY
        if op == 'gX':
            m.K = copy.deepcopy(X['v']); return ok(m.K)
        if op == 'aU':
            if X['gone']: return FAIL
            X['al'] += 1; return ok(1)
        if X['gone']: return GONE
        if op == 'eX': X['gone'] = True; return U
        if op == 'sX': X['v'].append([1]); return ok(len(X['v']))
        if op == 'qX': X['v'].append('q'); return ok(14)
        if op == 'wX': X['v'].append('w'); return ok(len(X['v']))
        if op == 'thX': return op + '! ' + wv(X['v'])
        if op == 'tX': X['t'] += 1; return ok(11)
        if op == 'uX':
            X['v'] += ['t'] * X['t']; X['t'] = 0; return ok(12)
        if op == 'nY': X['y'] = {'w': [5], 'gone': False, 'al': None}; return ok(6)
        if op == 'dY': X['y'] = None; return ok(9)
        if op in ('cU', 'cD', 'cE', 'cK'):
            if not X['al']: return FAIL
            if op == 'cU': m.K = copy.deepcopy(X['v']); return ok([m.K, 'u'])
            if op == 'cD': m.X = None; return ok('dr')
            if op == 'cE': X['gone'] = True; return U
            m.X = None; return ok(X['v'])
        Y = X['y']
        if Y is None: return op + '! string "converting a undefined/null value to object"'
        if op == 'gY':
            m.K = list(Y['w']); return ok(m.K)
        if op in ('YU', 'YD', 'YE'):
            if not X['al'] or Y['gone']: return FAIL
            Y['al'] = (op, X['al']); return ok(10)
        if Y['gone']: return GONE
        if op == 'mY': Y['w'].append(1); return ok(len(Y['w']))
        if op == 'eY': Y['gone'] = True; return ok(8)
        if op == 'cY':
            if not Y['al']: return FAIL
            if Y['al'][1] != X['al']: return op + '! string "alias was deleted"'
            if Y['al'][0] == 'YU': m.K = list(Y['w']); return ok([m.K, 'u'])
            if Y['al'][0] == 'YD': m.X = None; return ok('dr')
            X['gone'] = True; return U


ANY, FAIL = object(), object()


def life_case(h):
    m, S, E = Life(), ["X=null; K='none';"], []
    for op in h:
        S.append(LIFE[op] if op == 'nX' else "P('%s', function() { return %s; });" % (op, LIFE[op].rstrip(';')))
        e = m.step(op)
        E.append((op, e))
    def ck(got):
        L = got.split('\n') if got else []
        if len(L) != len(E): return 'want %d lines: %r' % (len(E), [e if isinstance(e, str) else o for o, e in E])
        for (o, e), b in zip(E, L):
            if e is ANY:
                if not b.startswith(o): return 'want %s' % o
            elif e is FAIL:
                if not b.startswith(o + '! string'): return 'want a failure of %s' % o
            elif e != b: return 'want %r' % e
    return Case('life ' + ','.join(h), '\n'.join(S), ck, n=len(h))


def life_hists(depth, ops, first=('nX',)):
    for d in range(1, depth + 1):
        for h in itertools.product(ops, repeat=d): yield first + h


# ------------------------------------------------------------------ isolation
# (what is done in one interpreter, expression there that shows it)
MUTS = [('var gv=1;', 'typeof gv'), ('gv=3;', 'gv'), ('function gf() { return 1; }', 'typeof gf'), ('Math.zz=3;', 'Math.zz'), ('String.prototype.zs=function() { return 4; };', '"a".zs'),
    ('Array.prototype.za=5;', '[].za'), ('Object.prototype.zo=6;', '({}).zo'), ('Function.prototype.zf=7;', '(function() {}).zf'), ('Number.prototype.zn=8;', '(5).zn'),
    ('Interp.conf({maxIncDepth:41});', 'Interp.conf("maxIncDepth")'), ('Interp.conf({name:"nn"});', 'Interp.conf("name")'), ('Interp.conf({asserts:true});', 'Interp.conf("asserts")'), ('Interp.conf({assertMode:"log"});', 'Interp.conf("assertMode")'),
    ('Interp.conf({udata:{q:1}});', 'Interp.conf("udata")'), ('Interp.conf({typeWarnMax:17});', 'Interp.conf("typeWarnMax")'), ('Interp.conf({pkgDirs:["/tmp"]});', 'Interp.conf("pkgDirs")'), ('Interp.conf({stdinStr:"zz"});', 'Interp.conf("stdinStr")'),
    ('provide("zmod",2.5);', '(function() { try { return require("zmod"); } catch(e) { return "none"; } })()'), ('var iv=setTimeout(function() { },100000);', 'Event.names().length'), ('console.zc=1;', 'console.zc'),
    ('Interp.prototype.zi=1;', 'Interp.prototype.zi'), ('var oo={a:1}; Object.freeze(oo);', 'typeof oo'), ('RegExp.prototype.zr=1;', '(/a/).zr'),
    ('File.zf=2;', 'File.zf'), ('Info.zz=1;', 'Info.zz'), ('var ar=[1,2,3]; ar.push(4);', 'typeof ar'), ('JSON.zj=1;', 'JSON.zj'), ('Interp.conf({maxDumpArgs:33});', 'Interp.conf("maxDumpArgs")'), ('Interp.conf({debugOpts:{minLevel:3}});', 'Interp.conf("debugOpts").minLevel'),
    ('Interp.conf({logOpts:{full:true}});', 'Interp.conf("logOpts")'), ('Interp.conf({subOpts:{dblPrec:6}});', '[1/3,Interp.conf("subOpts").dblPrec].join(",")'), ('Interp.conf({typeCheck:["noundef"]});', 'Interp.conf("typeCheck")'), ('Util.zz=[1];', 'Util.zz')]
DUMP = 'function DUMP(l:array) { var r=[], i, e; for (i=0; i<l.length; i++) { try { r.push(String(W([eval(l[i])]))); } catch(x) { r.push("!"+x); } } return r; } '
WHO = ['G', 'A', 'B', 'P']


def iso_src(seq):
    """seq of (who, index of MUTS): prints for every step which interps changed"""
    return r'''
var L=%s, M=%s, BASE=[];
var A=new Interp({scriptStr:J1+%s}), B=new Interp({scriptStr:J1+%s});
A.eval('var G=new Interp({scriptStr:'+JSON.stringify(J1+%s)+'}); function GD(l:array) { return G.call("DUMP",[l],true); }; function GE(t) { return G.eval(t); };');
%s
function ALL() { return {A:A.call('DUMP',[L],true), B:B.call('DUMP',[L],true), G:A.call('GD',[L],true), P:DUMP(L)}; }
function STEP(w,i) { var b=ALL(), a, k, j, r=[], t=M[i];
  try { if (w==='A') { A.eval(t); } else if (w==='B') { B.eval(t); } else if (w==='G') { A.call('GE',[t],true); } else { eval(t); } } catch(e) { r.push('!'+e); }
  a=ALL();
  for (k of ['A','B','G','P']) { for (j=0; j<L.length; j++) { if (a[k][j]!==b[k][j]) { r.push(k+j); } } }
  puts(w+i+' '+r.join(' ')); }
var FB=B.call('DUMP',[L],true);
%s
(function() { var N=new Interp({scriptStr:J1+%s}), d=N.call('DUMP',[L],true), j, r=[]; for (j=0; j<L.length; j++) { if (d[j]!==FB[j]) { r.push(j); } } puts('new '+r.join(' ')); })();
(function() { var b=ALL(), j, k, r=[], B2, P2; A=null; B2=B.call('DUMP',[L],true); P2=DUMP(L); for (j=0; j<L.length; j++) { if (b.B[j]!==B2[j]||b.P[j]!==P2[j]) { r.push(j); } } puts('drop '+r.join(' ')); })();
''' % (json.dumps([o for _, o in MUTS]), json.dumps([m for m, _ in MUTS]), json.dumps(DUMP), json.dumps(DUMP), json.dumps(DUMP), DUMP, '\n'.join("STEP('%s',%d);" % s for s in seq), json.dumps(DUMP))


def part_iso(x):
    single = [(w, i) for i in range(len(MUTS)) for w in WHO]
    seqs = [[s] for s in single]
    for r in range(0, len(MUTS), 1 if x.thorough else 6):
        for o in (WHO, WHO[::-1], ['A', 'P', 'G', 'B']):
            seqs.append([(w, (i + r) % len(MUTS)) for i in range(len(MUTS)) for w in o])
    if x.thorough: seqs += [[a, b] for a in single for b in single[::3]]
    side = {0: (0, 1), 1: (0, 1), 11: (11, 12)}
    for seq in seqs:
        def ck(got, seq=seq):
            L = got.split('\n')
            if len(L) != len(seq) + 2: return 'want %d steps' % len(seq)
            for (w, i), l in zip(seq, L):
                head, _, rest = l.partition(' ')
                if head != '%s%d' % (w, i): return 'want step %s%d' % (w, i)
                if rest.startswith('!package zmod already'): continue
                ch = rest.split()
                for k in ch:
                    if k[0] == '!' or k[0] != w or int(k[1:]) not in side.get(i, (i,)): return '%s in %s changed %s (index of what is seen)' % (MUTS[i][0], w, rest)
                if w != 'P' and '%s%d' % (w, i) not in ch and len(seq) == 1: return '%s in %s was not seen there' % (MUTS[i][0], w)
            pk = {str(i) for w, i in seq if w == 'P' and 'pkgDirs' in MUTS[i][0]}
            if set(L[-2].split()[1:]) - pk: return 'a new interp differs from one made before in %s' % L[-2]
            if L[-1].strip() != 'drop': return 'dropping A changed B or the parent in %s' % L[-1]
        yield Case('iso ' + ' '.join('%s%d' % s for s in seq)[:80], iso_src(seq), ck, n=len(seq))


def part_limits(x):
    def one(key, src, exp): return Case('limit ' + key, src, exp)
    nest = r'''function nest(n) { return n==0 ? 'var r="leaf";r' : 'var s=new Interp(); s.eval('+JSON.stringify(nest(n-1))+')'; }'''
    for d in range(1, 11):
        for n in range(0, 9 if not x.thorough else 11):
            yield one('nest %d %d' % (d, n), nest + "T('n', function() { return new Interp({maxInterpDepth:%d}).eval(nest(%d)); });" % (d, n), 'n: leaf' if n < d else 'n!! string "exceeded max subinterp depth"')
    for m in range(8, 80 if x.thorough else 40):
        def ck(got, m=m):
            k, _, e = got.partition(' ')
            if not m - 6 <= int(k) <= m: return 'maxDepth %d let %s calls nest' % (m, k)
            if e != 'string "Exceeded call depth: %d"' % (m + 1): return 'the message is %r' % e
        yield one('depth %d' % m, "var s = new Interp({maxDepth:%d,scriptStr:'function f(n) { return n==0?0:1+f(n-1); }'}), n, ok=-1; try { for (n=0; n<200; n++) { s.eval('f('+n+')'); ok=n; } } catch(e) { puts(ok+' '+W([e])); }" % m, ck)
    for m in range(30, 1500 if x.thorough else 400, 10):
        def ck(got, m=m):
            L = got.split('\n')
            if L[-1:] != ['true string "Sub-interp gone"']: return 'the sub-interp did not end: %r' % L[-1:]
            n = int(L[-2])
            if n > m or n < (m - 24) // 20: return '%d calls were made under maxOpCnt %d' % (n, m)
        yield one('ops %d' % m, "var n=0, s = new Interp({maxOpCnt:%d}), u; s.alias('c', function() { n++; }, null); u = s.eval('for (var i=0;i<100000;i++) { c(); } 5'); puts(n); try { s.eval('1'); } catch(e) { puts((n===%s)+' '+W([e])); }" % (m, 'n'), ck)
    for src, e in [("new Interp({noSubInterps:true}).eval('new Interp(); 1')", 'n!! string "subinterps disallowed"'), ("new Interp({noSubInterps:true}).eval('2')", 'n: 2'),
                   ("new Interp({scriptStr:'throw [1,\"x\"];'})", 'n!! array(2) [ 1, "x" ]'), ("new Interp({scriptStr:'throw 7;'})", 'n!! number 7'), ("new Interp({scriptStr:'var e={a:1}; throw e;'})", 'n!! object { "a":1 }'),
                   ("new Interp({scriptStr:'zz();'})", 'n!! string "can not execute expression: \'zz\' not a function"')]:
        yield one(src, "T('n', function() { return %s; });" % src, e)
    # recursion from one interp to the other ends with an error, and both go on
    for n in (1, 5, 20, 60, 150, 1000, 5000):
        for k in range(2 if not x.thorough else 6):
            def ck(got, n=n):
                a, _, b = got.partition('\n')
                if b != '2': return 'they do not go on: %r' % b
                if a == 'r: %d' % n: return None if n < 400 else 'no limit'
                if n > 20 and a.startswith('r!! string') and 'depth' in a: return None
                return 'want %d' % n
            yield one('pingpong %d %d' % (n, k), "var s = new Interp(), q; s.alias('r', function(k) { return k==0?0:1+s.eval('%sr('+(k-1)+')'); }, null); T('r', function() { return s.eval('r(%d)'); }); puts(s.eval('r(2)'));" % (' ' * k, n), ck)


def main():
    c = Ctx('R02')
    c.build('std')
    vals = part_values(c)
    c.run_cases(vals, 40, PROLOG)
    c.run_cases(part_alias(c), 300, ALPRO)
    ops = [o for o in LIFE if o not in ('tX', 'uX', 'uP', 'f', 'thX')]
    few = ['nX', 'dX', 'eX', 'sX', 'gX', 'pK', 'cU', 'cD', 'cE', 'cK']
    firsts = [('nX',), ('nX', 'nY', 'aU', 'YU'), ('nX', 'nY', 'aU', 'YD'), ('nX', 'nY', 'aU', 'YE'), ('nX', 'aU')]

    def life():
        for f in firsts:
            for h in life_hists(4 if c.thorough and f == ('nX',) else 3 if c.thorough or f == ('nX',) else 2, LIFE if c.thorough or f == ('nX',) and 0 else ops if f == ('nX',) else LIFE, f): yield life_case(h)
        for h in life_hists(5 if c.thorough else 4, few if c.thorough else few[:6], ('nX', 'aU')): yield life_case(h)
    c.run_cases(life(), 200, LIFEPRO)
    c.run_cases(part_iso(c), 4, PROLOG, timeout=120)
    c.run_cases(part_limits(c), 25, PROLOG, timeout=120)
    # the same under AddressSanitizer
    c.run_cases(vals[::1 if c.thorough else 12], 30, PROLOG, kind='asan', timeout=240)
    c.run_cases((k for i, k in enumerate(part_alias(c)) if c.thorough and i % 4 == 0 or i % 23 == 0), 60, ALPRO, kind='asan', timeout=240)

    def slife():
        for f in firsts[:4]:
            for i, h in enumerate(life_hists(2, LIFE, f)):
                if c.thorough or i % 3 == 0: yield life_case(h)
    c.run_cases(slife(), 60, LIFEPRO, kind='asan', timeout=240)
    c.cov['depth'] = 4 if c.thorough else 3
    c.assumptions.append('interpreters run in threads (subthread) are another property; process-wide state (working directory, environment) is outside')
    c.finish()


if __name__ == '__main__':
    main()
