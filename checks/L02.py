"""Expressions: every operator over an operand domain, every operator chain up to three
operators without parentheses, assignment / increment forms, evaluation order."""
import itertools, math
from mc.core import Ctx, Case

INF = float('inf')


def fmt(x):
    """jsish's rendering of a number: integers in full, else %.15g."""
    if x != x: return 'NaN'
    if x == INF: return 'Infinity'
    if x == -INF: return '-Infinity'
    if x == int(x) and abs(x) < 2.0 ** 63:
        return '%d' % x
    return '%.15g' % x


def S(v):
    if v is UNDEF: return 'undefined'
    if v is None: return 'null'
    if v is True: return 'true'
    if v is False: return 'false'
    if isinstance(v, str): return v
    return fmt(float(v))


class U: pass
UNDEF = U()


class Bad(Exception): pass      # outside the modelled domain


def num(v):
    if v is True: return 1.0
    if v is False: return 0.0
    if isinstance(v, str):
        if v == '': return 0.0
        try: return float(int(v)) if v.lstrip('-').isdigit() else float(v)
        except ValueError: raise Bad
    if v is None or v is UNDEF: raise Bad
    return float(v)


def truth(v):
    if v is UNDEF or v is None or v is False: return False
    if v is True: return True
    if isinstance(v, str): return v != ''
    return v == v and v != 0


def i32(x):
    x = int(math.fmod(math.trunc(x), 2 ** 32)) & 0xffffffff
    return x - 2 ** 32 if x >= 2 ** 31 else x


def small(v):
    if isinstance(v, str): raise Bad
    x = num(v)
    if x != x or abs(x) > 2 ** 31 - 1: raise Bad
    return int(x)


def nonneg(v):
    x = num(v)
    if x != x or x < 0 or x > 2 ** 53 or x != int(x): raise Bad
    return int(x)


def typ(v):
    return 'undefined' if v is UNDEF else 'null' if v is None else 'boolean' if isinstance(v, bool) else 'string' if isinstance(v, str) else 'number'


def binop(o, a, b):
    if o == '+':
        if isinstance(a, str) or isinstance(b, str):
            if a is UNDEF or b is UNDEF: raise Bad
            return S(a) + S(b)
        x, y = num(a), num(b)
        if x != x or y != y: raise Bad
        return x + y
    if o in '-*/%' and len(o) == 1:
        x, y = num(a), num(b)
        if x != x or y != y: raise Bad          # NaN operands raise in jsish
        if o == '-': return x - y
        if o == '*': return x * y
        if o == '/':
            if y == 0:
                return float('nan') if x == 0 else INF * math.copysign(1, x) * math.copysign(1, y)
            return x / y
        if y == 0 or abs(x) == INF: return float('nan')
        return math.fmod(x, y)
    if o in ('<', '>', '<=', '>='):
        if typ(a) != typ(b) or typ(a) not in ('number', 'string'): raise Bad
        if isinstance(a, str): a, b = a.encode(), b.encode()
        elif a != a or b != b: raise Bad
        return {'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[o]
    if o in ('==', '!='):
        if typ(a) == typ(b):
            r = a == b if a is not UNDEF and a is not None else True
        elif {typ(a), typ(b)} == {'undefined', 'null'}: r = True
        elif 'null' in (typ(a), typ(b)) or 'undefined' in (typ(a), typ(b)): raise Bad
        else: r = num(a) == num(b)
        return r == (o == '==')
    if o in ('===', '!=='):
        if a is UNDEF and b is not UNDEF: raise Bad   # jsish refuses
        r = typ(a) == typ(b) and (a == b if a is not UNDEF and a is not None else True)
        return r == (o == '===')
    if o in '&|^' and len(o) == 1:
        x, y = nonneg(a), nonneg(b)
        return float({'&': x & y, '|': x | y, '^': x ^ y}[o])
    if o in ('<<', '>>', '>>>'):
        x, y = small(a), small(b)
        s = y & 31
        if o == '<<': return float(i32((x & 0xffffffff) << s))
        if o == '>>': return float(x >> s)
        return float((x & 0xffffffff) >> s)
    raise AssertionError(o)


PREC = {'||': 1, '&&': 2, '|': 3, '^': 4, '&': 5, '==': 6, '!=': 6, '===': 6, '!==': 6, '<': 7, '>': 7, '<=': 7, '>=': 7,
        '<<': 8, '>>': 8, '>>>': 8, '+': 9, '-': 9, '*': 10, '/': 10, '%': 10}
OPS = list(PREC)


def ev(n, tr):
    """n: value leaf ('v', k) traced | ('c', const) | (op, l, r) | ('u', op, x) | ('?', c, a, b)"""
    k = n[0]
    if k == 'v':
        tr.append(S(n[1])); return n[1]
    if k == 'c': return n[1]
    if k == 'u':
        x = ev(n[2], tr)
        if n[1] == '!': return not truth(x)
        if n[1] == '-':
            v = num(x)
            if v != v: raise Bad
            return -v
        if n[1] == '~': return float(~small(x))
        if n[1] == 'typeof ': return typ(x)
        raise AssertionError
    if k == '?':
        return ev(n[2], tr) if truth(ev(n[1], tr)) else ev(n[3], tr)
    if k == ',':
        ev(n[1], tr); return ev(n[2], tr)
    if k == '&&':
        l = ev(n[1], tr)
        if l is UNDEF: raise Bad
        return ev(n[2], tr) if truth(l) else l
    if k == '||':
        l = ev(n[1], tr)
        return l if truth(l) else ev(n[2], tr)
    l = ev(n[1], tr)
    return binop(k, l, ev(n[2], tr))


def parse(toks):
    """precedence climbing over [leaf, op, leaf, op, leaf...]"""
    pos = [0]

    def ex(p):
        l = toks[pos[0]]; pos[0] += 1
        while pos[0] < len(toks) and PREC[toks[pos[0]]] >= p:
            o = toks[pos[0]]; pos[0] += 1
            r = ex(PREC[o] + 1)
            l = (o, l, r)
        return l
    return ex(1)


def lit(v):
    if v is UNDEF: return 'undefined'
    if v is None: return 'null'
    if v is True: return 'true'
    if v is False: return 'false'
    if isinstance(v, str): return "'%s'" % v
    if v != v: return 'NaN'
    if v == INF: return 'Infinity'
    return repr(int(v)) if v == int(v) and abs(v) < 1e15 else repr(v)


PROLOG = r'''
var TR = [];
function t(x) { TR.push(''+x); return x; }
function W(w) { var v = w[0]; if (v===undefined) puts('undefined:undefined'); else puts((typeof v)+':'+v); }
function WT(w) { var v = w[0]; puts((v===undefined?'undefined:undefined':(typeof v)+':'+v)+' ['+TR.join(' ')+']'); TR = []; }
'''


def show(v):
    return typ(v) + ':' + S(v)


def main():
    c = Ctx('L02')
    seen = set()

    def ops():
        dom = [0.0, 1.0, -1.0, 2.0, 3.0, 0.5, -0.5, 2.5, -7.0, 10.0, 255.0, 1e10, 1e15, 9007199254740992.0, 1e21, 1e-7, 123456.789, 2147483647.0, -2147483647.0, 4294967295.0,
               INF, '', 'a', 'b', 'ab', 'B', '1', '10', '9', '0.5', '-1', '1.0', 'é', True, False, None, UNDEF]
        for a in dom:
            for o in OPS:
                for b in dom:
                    try:
                        r = ev((o, ('c', a), ('c', b)), [])
                    except Bad:
                        continue
                    yield ('%s %s %s' % (lit(a), o, lit(b)), show(r))
                    # through variables, and through object members
                    yield ('(function(p,q){ return p.x %s q[0]; })({x:%s},[%s])' % (o, lit(a), lit(b)), show(r))
            for u in ('!', '-', '~', 'typeof '):
                try:
                    r = ev(('u', u, ('c', a)), [])
                except Bad:
                    continue
                yield ('%s(%s)' % (u, lit(a)), show(r))
            yield ('((%s) ? "y" : "n")' % lit(a), 'string:' + ('y' if truth(a) else 'n'))
            yield ('(function(){ if (%s) { return "y"; } return "n"; })()' % lit(a), 'string:' + ('y' if truth(a) else 'n'))

    def chains():
        leafsets = [(7.0, 3.0, 2.0, 5.0), (1.0, 0.0, 4.0, 6.0), (0.0, 2.0, 2.0, 1.0)]
        for ls in leafsets:
            for n in (2, 3):
                for os in itertools.product(OPS, repeat=n):
                    toks = [('v', ls[0])]
                    txt = 't(%s)' % lit(ls[0])
                    for i, o in enumerate(os):
                        toks += [o, ('v', ls[i + 1])]
                        txt += ' %s t(%s)' % (o, lit(ls[i + 1]))
                    tr = []
                    try:
                        r = ev(parse(toks), tr)
                    except Bad:
                        continue
                    yield (txt, '%s [%s]' % (show(r), ' '.join(tr)))
        if c.thorough:
            for os in itertools.product(OPS, repeat=4):
                ls = (9.0, 4.0, 3.0, 2.0, 1.0)
                toks = [('v', ls[0])]
                txt = 't(%s)' % lit(ls[0])
                for i, o in enumerate(os):
                    toks += [o, ('v', ls[i + 1])]
                    txt += ' %s t(%s)' % (o, lit(ls[i + 1]))
                tr = []
                try:
                    r = ev(parse(toks), tr)
                except Bad:
                    continue
                yield (txt, '%s [%s]' % (show(r), ' '.join(tr)))
        # unary in front of each leaf of a chain
        for us in itertools.product(('', '!', '-', '~', 'typeof '), repeat=2):
            for o in OPS:
                for p in OPS:
                    l = [('v', 5.0), ('v', 3.0), ('v', 1.0)]
                    a = ('u', us[0], l[0]) if us[0] else l[0]
                    b = ('u', us[1], l[1]) if us[1] else l[1]
                    tr = []
                    try:
                        r = ev(parse([a, o, b, p, l[2]]), tr)
                    except Bad:
                        continue
                    yield ('%st(5) %s %st(3) %s t(1)' % (us[0], o, us[1], p), '%s [%s]' % (show(r), ' '.join(tr)))
        # ternaries and parentheses
        for o in OPS:
            for x, y in ((0.0, 1.0), (2.0, 0.0), (3.0, 3.0)):
                tr = []
                try:
                    r = ev(('?', (o, ('v', x), ('v', y)), ('v', 8.0), (o, ('v', 9.0), ('v', 4.0))), tr)
                    yield ('t(%s) %s t(%s) ? t(8) : t(9) %s t(4)' % (lit(x), o, lit(y), o), '%s [%s]' % (show(r), ' '.join(tr)))
                except Bad:
                    pass
                for p in OPS:
                    tr = []
                    try:
                        r = ev((o, ('v', 6.0), (p, ('v', x), ('v', y))), tr)
                    except Bad:
                        continue
                    yield ('t(6) %s (t(%s) %s t(%s))' % (o, lit(x), p, lit(y)), '%s [%s]' % (show(r), ' '.join(tr)))
        for a, b, d in itertools.product((0.0, 1.0), repeat=3):
            tr = []
            r = ev(('?', ('v', a), ('?', ('v', b), ('v', 11.0), ('v', 12.0)), ('?', ('v', d), ('v', 13.0), ('v', 14.0))), tr)
            yield ('t(%d) ? t(%d) ? t(11) : t(12) : t(%d) ? t(13) : t(14)' % (a, b, d), '%s [%s]' % (show(r), ' '.join(tr)))

    def assigns():
        """Targets: local, captured, member, index; compound and inc/dec; value and final state."""
        targets = [('x', 'var x=%s;'), ('o.p', 'var o={p:%s,q:1};'), ("o['p q']", "var o={'p q':%s};"), ('a[1]', 'var a=[9,%s,8];'),
                   ('o.a[0].b', 'var o={a:[{b:%s}]};'), ('a[i]', 'var i=2; var a=[9,7,%s];')]
        vals = [5.0, 2.5, -3.0, 0.0, 's', '7', True]
        for tg, init in targets:
            for v in vals:
                for o in ('+', '-', '*', '/', '%', '<<', '>>', '>>>', '&', '|', '^'):
                    for w in (2.0, 3.0, '4', 'z'):
                        try:
                            r = binop(o, v, w)
                        except Bad:
                            continue
                        if r != r: continue
                        yield ('(function(){ %s var y = (%s %s= %s); return y+"|"+%s+"|"+typeof %s; })()' % (init % lit(v), tg, o, lit(w), tg, tg),
                               'string:%s|%s|%s' % (S(r), S(r), typ(r)))
                if v != 's':
                    n = num(v)
                    for form, ret, new in (('%s++', n, n + 1), ('%s--', n, n - 1), ('++%s', n + 1, n + 1), ('--%s', n - 1, n - 1)):
                        yield ('(function(){ %s var y = (%s); return y+"|"+%s; })()' % (init % lit(v), form % tg, tg),
                               'string:%s|%s' % (S(ret), S(new)))
                        yield ('(function(){ %s %s; %s; return 100-%s; })()' % (init % lit(v), form % tg, form % tg, tg),
                               'number:%s' % S(100 - (n + 2 * (new - n))))
        for a, b in itertools.product((1.0, 2.0), repeat=2):
            yield ('(function(){ var x=%d,y=%d,z; z = x = y; return [x,y,z].length+":"+x+y+z; })()' % (a, b), 'string:3:%d%d%d' % (b, b, b))
        # order of evaluation of the parts of a call, an index, an object / array literal
        yield ('(function(){ var f=function(a,b,c){ return a*100+b*10+c; }; var r=f(t(1),t(2),t(3)); return r+" "+TR.join(""); })()', 'string:123 123')
        yield ('(function(){ TR=[]; var a=[t(4),t(5)]; var o={x:t(6),y:t(7)}; return a[t(1)]+o.y+" "+TR.join(""); })()', 'string:12 45671')
        yield ('(function(){ TR=[]; var x=0; var r=(t(1),t(2),x=t(3)); return r+" "+x+TR.join(""); })()', 'string:3 3123')

    def cases():
        for g, w in ((ops(), 'W'), (chains(), 'WT'), (assigns(), 'W')):
            for x in g:
                seen.add(x[1])
                yield Case(x[0], 'TR=[]; %s([%s]);' % (w, x[0]), x[1])

    c.run_cases(cases(), 1500, PROLOG)
    c.cov['states'] = len(seen)
    c.finish()


if __name__ == '__main__':
    main()
