"""Declared parameter and return types, default values and arity: every signature over the type
language up to two parameters, every kind of argument, every call form."""
import itertools, re
from mc.core import Ctx, Case

VAL = {'num': '5', 'str': "'s'", 'boo': 'true', 'nul': 'null', 'obj': '{q:1}', 'arr': '[1]', 'fun': 'function() { }', 'reg': 'RX', 'und': 'U.q', 'zero': '0', 'emp': "''", 'fal': 'false', 'nan': 'NaN', 'earr': '[]', 'eobj': '{}'}
KIND = {'num': 'number', 'str': 'string', 'boo': 'boolean', 'nul': 'null', 'obj': 'object', 'arr': 'array', 'fun': 'function', 'reg': 'regexp', 'und': 'undefined',
        'zero': 'number', 'emp': 'string', 'fal': 'boolean', 'nan': 'number', 'earr': 'array', 'eobj': 'object'}
SHOW = {'num': '5', 'str': 's', 'boo': 'true', 'nul': 'null', 'obj': 'object', 'arr': 'array', 'fun': 'function', 'reg': 'regexp', 'und': 'undefined',
        'zero': '0', 'emp': '', 'fal': 'false', 'nan': 'NaN', 'earr': 'array', 'eobj': 'object'}
TYPES = ['number', 'string', 'boolean', 'array', 'object', 'function', 'regexp', 'null', 'any']
UNIONS = ['number|string', 'string|null', 'array|object', 'boolean|function', 'number|undefined', 'object|null|string', 'regexp|string', 'number|boolean|array']

PROLOG = r'''
var U = {}, RX = /x/;
function D(w) { var v = w[0]; if (v===undefined) { return 'undefined:undefined'; } var t = typeof v;
  if (t=='object' && v.test) { t = 'regexp'; }
  if (t=='object' || t=='array' || t=='function' || t=='regexp') { return t; } return t+':'+v; }
'''


def shown(k):
    kd = KIND[k]
    if kd in ('object', 'array', 'function', 'regexp'): return kd
    return kd + ':' + SHOW[k]


def accept(types, k):
    if types is None or 'any' in types: return True
    return KIND[k] in types


class Sig:
    """params: list of (type text | None, default kind | 'void' | None)"""
    def __init__(self, params, var=False, ret=None):
        self.params, self.var, self.ret = params, var, ret

    def js(self, body):
        ps = []
        for i, (t, d) in enumerate(self.params):
            s = 'p%d' % i
            if t: s += ':' + t
            if d == 'void': s += '=void'
            elif d: s += '=' + VAL[d]
            ps.append(s)
        if self.var: ps.append('...')
        return 'function(%s)%s { %s }' % (', '.join(ps), ':' + self.ret if self.ret else '', body)

    def model(self, args):
        """-> ('arity',) | ('type', i) | ('undef', i) | ('ok', [kinds])"""
        mn = 0
        for i, (t, d) in enumerate(self.params):
            if d is None: mn = i + 1
        if len(args) < mn or (not self.var and len(args) > len(self.params)):
            return ('arity',)
        out = []
        for i, (t, d) in enumerate(self.params):
            types = set(t.split('|')) if t else ({KIND[d]} if d and d != 'void' else None)
            if i < len(args):
                k = args[i]
                if k == 'und':
                    if types is None or not (types & {'undefined', 'any'}): return ('undef', i + 1)
                elif not accept(types, k): return ('type', i + 1)
                out.append(k)
            else:
                out.append('und' if d == 'void' else d)
        return ('ok', out)


FORMS = {
    'plain': 'f(%s)', 'member': 'o.f(%s)', 'call': 'f.call(null%s)', 'apply': 'f.apply(null,[%s])', 'bind': 'f.bind(null)(%s)', 'named': 'f(%s)',
}


def case(sig, args, form):
    n = len(sig.params)
    body = 'puts([%s].join(" ")); return 1;' % ','.join('p%d===undefined ? "undefined:undefined" : D([p%d])' % (i, i) for i in range(n))
    al = ','.join(VAL[a] for a in args)
    call = FORMS[form] % ((',' + al if al else '') if form == 'call' else al)
    js = 'var f = %s; var o = {f:f}; try { %s; } catch(e) { puts("EXC "+e); }' % (sig.js(body), call)
    if form == 'named':
        js = '%s; try { %s; } catch(e) { puts("EXC "+e); }' % (sig.js(body).replace('function(', 'function f(', 1), call)
    m = sig.model(args)

    def chk(got):
        if m[0] == 'ok':
            e = ' '.join(shown(k) for k in m[1])
            return None if got == e else 'expected the body to run with %r, got %.300r' % (e, got)
        if not got.startswith('EXC '): return 'expected the call to be refused (%s), got %.300r' % (m, got)
        if m[0] == 'arity': ok = 'args, expected' in got
        elif m[0] == 'type': ok = re.search(r'type mismatch .* arg %d ' % m[1], got)
        else: ok = re.search(r'undefined var .* arg %d ' % m[1], got)
        return None if ok else 'expected refusal %s, got %.300r' % (m, got)
    return Case('(%s)(%s) %s' % (sig.js('')[8:], al, form), js, chk)


def main():
    c = Ctx('L04')
    states = set()

    def strip(t):
        return '\n'.join(l for l in t.split('\n') if l)

    def gen():
        one = [(t, d) for t in [None] + TYPES + UNIONS for d in (None, 'void') if t or not d] + [(None, k) for k in ('num', 'str', 'boo', 'zero', 'emp', 'fal', 'nul')] + \
              [(KIND[k], k) for k in ('num', 'str', 'boo')] + [('number|string', 'str'), ('any', 'num'), ('string|null', 'nul')]
        for p in one:
            for form in ('plain', 'member', 'call', 'apply', 'bind', 'named'):
                for args in [()] + [(k,) for k in VAL]:
                    s = Sig([p])
                    states.add((p, s.model(args)[0]))
                    yield case(s, args, form)
        for p in one[:12]:
            for args in [()] + [(k,) for k in ('num', 'str', 'und')] + [('num', 'str'), ('num', 'und', 'num')]:
                yield case(Sig([p], True), args, 'plain')
        two = [(None, None), ('number', None), ('string', None), ('any', None), ('array|null', None), (None, 'num'), ('string', 'emp'), ('number', 'void'), (None, 'boo'), ('object|undefined', None)]
        for p, q in itertools.product(two, repeat=2):
            if p[1] and not q[1]: continue
            for n in range(0, 4):
                for args in itertools.product(('num', 'str', 'arr', 'nul', 'und', 'obj'), repeat=n):
                    if n == 3 and args[2] != 'num': continue
                    s = Sig([p, q])
                    states.add((p, q, s.model(args)[0]))
                    yield case(s, args, 'plain')
                    if n < 3: yield case(s, args, 'named')
                    if c.thorough: yield case(s, args, 'apply')
        if c.thorough:
            for ps in itertools.product(two[1:8], repeat=3):
                if any(a[1] and not b[1] for a, b in zip(ps, ps[1:])): continue
                for n in range(1, 5):
                    for args in itertools.product(('num', 'str', 'nul'), repeat=n):
                        if n == 4 and args[3] != 'num': continue
                        yield case(Sig(list(ps)), args, 'plain')
        # more arguments than any fixed count
        for n in range(0, 12):
            for k in range(0, 12):
                yield case(Sig([(None, None)] * n), ('num',) * k, 'plain')
                yield case(Sig([(None, None)] * n, True), ('num',) * k, 'apply')
                yield case(Sig([(None, None)] * (n // 2) + [('number', 'zero')] * (n - n // 2)), ('num',) * k, 'plain')
        # a default is made afresh from its declared value on every call
        for d, mod, show in (("'x'", "p0 += 'y';", 'x'), ('5', 'p0++;', '5'), ('true', 'p0 = false;', 'true'), ('null', 'p0 = 3;', 'null')):
            yield Case('default %s not remembered' % d, 'var f = function(p0:any=%s) { puts(p0); %s }; f(); f(); f(9); f();' % (d, mod),
                       '%s\n%s\n9\n%s' % (show, show, show))
        # return types
        for t in TYPES + UNIONS + ['void', 'number|void']:
            for k in list(VAL) + [None]:
                for form in ('f()', 'f.call(null)', 'o.f()', '[1].map(g)', 'f.apply(null,[])'):
                    ts = set(t.split('|'))
                    if k is None: ok = bool(ts & {'void', 'any'})
                    elif k == 'und': ok = bool(ts & {'void', 'any'})
                    else: ok = accept(ts, k)
                    if form == '[1].map(g)' and (t == 'void' or k in (None, 'und')): continue
                    body = 'return %s;' % VAL[k] if k else 'return;'
                    js = 'var f = function():%s { puts("in"); %s }; var g = function(x):%s { puts("in"); %s }; var o = {f:f}; try { %s; puts("done"); } catch(e) { puts("EXC "+e); }' % (t, body, t, body, form)

                    def chk(got, ok=ok, t=t):
                        if ok: return None if got == 'in\ndone' else 'expected the value to be accepted, got %.300r' % got
                        return None if re.match(r'in\nEXC type mismatch returned from', got) else 'expected the return to be refused, got %.300r' % got
                    yield Case('return :%s %s by %s' % (t, body, form), js, chk)

    c.run_cases(gen(), 24, PROLOG)
    c.cov['states'] = len(states)
    c.assumptions.append('default type-check options (a fresh interpreter per 24 calls: diagnostics stop after 50)')
    c.finish()


if __name__ == '__main__':
    main()
