"""Arrays: every sequence of array operations up to a depth, against a list."""
import itertools, functools
from mc.core import Ctx, Case

PROLOG = r'''
function V1(r) { return r[0]===undefined ? "undefined" : V(r[0]); }
function V(x) { var t = typeof x; if (t==='array') { var r='['; for (var i=0;i<x.length;i++) r+=(i?',':'')+(x[i]===undefined?'undefined':V(x[i])); return r+']'; }
  if (t==='string') return '"'+x+'"'; return ''+x; }
function P(a, r) { puts(V1(r)+' | '+a.length+' '+V(a)); }
'''


def js(v):
    if v is None: return 'undefined'
    if v is True: return 'true'
    if v is False: return 'false'
    if isinstance(v, str): return '"%s"' % v
    if isinstance(v, list): return '[' + ','.join(js(x) for x in v) + ']'
    if isinstance(v, float):
        return '%.15g' % v
    return str(v)


def V(v):
    return js(v)


class Op:
    """js text of an expression on array a, and the same on a Python list (returns value)."""
    def __init__(self, text, fn):
        self.text, self.fn = text, fn


def o_push(*xs):
    def f(a):
        a.extend(xs); return len(a)
    return Op('a.push(%s)' % ','.join(map(js, xs)), f)


def o_unshift(*xs):
    def f(a):
        a[0:0] = xs
        return len(a)
    return Op('a.unshift(%s)' % ','.join(map(js, xs)), f)


def o_splice(s, d=None, *items):
    def f(a):
        n = len(a)
        if s > n: return []
        i = s if s >= 0 else max(0, n + s)
        k = n - i if d is None else (n - i if d < 0 or d > n - i else d)
        r = a[i:i + k]
        a[i:i + k] = list(items)
        return r
    args = [s] + ([] if d is None else [d]) + list(items)
    return Op('a.splice(%s)' % ','.join(map(js, args)), f)


def sl(a, s, e=None):
    # jsish: the end index is inclusive, negatives count from the end
    n = len(a)
    if s > n: return None
    if s < 0: s += n
    if s < 0 or n == 0: return None
    if e is None: e = n - 1
    else:
        e = min(e, n - 1)
        if e < 0: e += n
        if e < 0: return None
    return (s, e) if e >= s else None


def o_slice(s, e=None):
    def f(a):
        r = sl(a, s, e)
        return a[r[0]:r[1] + 1] if r else []
    return Op('a.slice(%s)' % (js(s) if e is None else js(s) + ',' + js(e)), f)


def o_fill(v, s=None, e=None):
    def f(a):
        r = sl(a, 0 if s is None else s, e)
        if r:
            for i in range(r[0], r[1] + 1): a[i] = v
        return list(a)
    return Op('a.fill(%s)' % ','.join(js(x) for x in (v, s, e) if x is not None), f)


def o_pop():
    return Op('a.pop()', lambda a: a.pop() if a else None)


def o_shift():
    return Op('a.shift()', lambda a: a.pop(0) if a else None)


def o_set(i, v):
    def f(a):
        # only in range or appending at the end: no holes
        if i < len(a): a[i] = v
        else: a.append(v)
        return v
    return Op('(a[Math.min(%d,a.length)]=%s)' % (i, js(v)), f)


def skey(x):
    return x if isinstance(x, str) else str(x)


def cmp_default(x, y):
    if isinstance(x, str) or isinstance(y, str):
        x, y = js_str(x), js_str(y)
    return (x > y) - (x < y)


def js_str(x):
    return x if isinstance(x, str) else js(x)


def o_sort(kind):
    if kind == 'num':
        return Op('a.sort(function(x,y){return x-y;})', lambda a: (a.sort(), list(a))[1])
    if kind == 'rnum':
        return Op('a.sort(function(x,y){return y-x;})', lambda a: (a.sort(reverse=True), list(a))[1])
    if kind == 'def':
        return Op('a.sort()', lambda a: (a.sort(), list(a))[1])
    if kind == 'desc':
        return Op("a.sort({mode:'desc'})", lambda a: (a.sort(reverse=True), list(a))[1])
    def f(a):
        a[:] = sorted(set(a)); return list(a)
    return Op('a.sort({unique:true})', f)


def idx(a, v, s=None):
    n = len(a)
    i = 0 if s is None else s
    if i > n: return -1
    if i < 0: i += n
    if i < 0: return -1
    for k in range(i, n):
        if same(a[k], v): return k
    return -1


def same(x, y):
    return type(x) == type(y) and x == y


def flat(a, d):
    r = []
    for x in a:
        if isinstance(x, list) and d > 0: r += flat(x, d - 1)
        else: r.append(x)
    return r


def observers(vals):
    """Pure observers: text, fn."""
    o = []
    for s in (-9, -3, -2, -1, 0, 1, 2, 3, 9):
        o.append(o_slice(s))
        for e in (-9, -2, -1, 0, 1, 2, 9):
            o.append(o_slice(s, e))
    for v in vals:
        o.append(Op('a.indexOf(%s)' % js(v), lambda a, v=v: idx(a, v)))
        o.append(Op('a.includes(%s)' % js(v), lambda a, v=v: idx(a, v) >= 0))
        o.append(Op('a.lastIndexOf(%s)' % js(v), lambda a, v=v: max([i for i, x in enumerate(a) if same(x, v)] or [-1])))
        for s in (-2, -1, 0, 1, 2, 9):
            o.append(Op('a.indexOf(%s,%d)' % (js(v), s), lambda a, v=v, s=s: idx(a, v, s)))
    o.append(Op('a.concat()', lambda a: list(a)))
    o.append(Op('a.concat(a,8,[],[9,[7]])', lambda a: a + a + [8, 9, [7]]))
    o.append(Op('a.flat()', lambda a: flat(a, 1)))
    o.append(Op('a.flat(2)', lambda a: flat(a, 2)))
    o.append(Op('[a,[a,5]].flat(1)', lambda a: flat([a, [a, 5]], 1)))
    o.append(Op('a.map(function(x,i){return [i,x];})', lambda a: [[i, x] for i, x in enumerate(a)]))
    o.append(Op('a.filter(function(x,i){return i%2==0;})', lambda a: a[0::2]))
    o.append(Op('a.filter(function(x){return x===2;})', lambda a: [x for x in a if same(x, 2)]))
    o.append(Op('(function(){var r=[];a.forEach(function(x,i,b){r.push(i);r.push(x);r.push(b.length);});return r;})()',
                lambda a: [y for i, x in enumerate(a) for y in (i, x, len(a))]))
    for v in vals[:3]:
        o.append(Op('a.find(function(x){return x===%s;})' % js(v), lambda a, v=v: v if idx(a, v) >= 0 else None))
        o.append(Op('a.findIndex(function(x){return x===%s;})' % js(v), lambda a, v=v: idx(a, v)))
        o.append(Op('a.some(function(x){return x===%s;})' % js(v), lambda a, v=v: idx(a, v) >= 0))
        o.append(Op('a.every(function(x){return x!==%s;})' % js(v), lambda a, v=v: idx(a, v) < 0))
    o.append(Op('a.reduce(function(p,x,i){return p+"<"+i+":"+V(x);},"")', lambda a: ''.join('<%d:%s' % (i, V(x)) for i, x in enumerate(a))))
    o.append(Op('a.reduceRight(function(p,x,i){return p+"<"+i+":"+V(x);},"")', lambda a: ''.join('<%d:%s' % (i, V(x)) for i, x in reversed(list(enumerate(a))))))
    def red(a, x, right):
        a = a[::-1] if right else list(a)
        if not a: return None
        r = V(a[0])
        for y in a[1:]: r = '(%s %s)' % (r, V(y))
        return r if len(a) > 1 else a[0]
    o.append(Op('a.reduce(function(p,x,i,b){return "("+(i>1?p:V(p))+" "+V(x)+")";})', lambda a: red(a, 0, False)))
    o.append(Op('a.reduceRight(function(p,x,i,b){return "("+(i<b.length-2?p:V(p))+" "+V(x)+")";})', lambda a: red(a, 0, True)))
    o.append(Op('(function(){var r=[];for(var i in a)r.push(""+i);return r;})()', lambda a: [str(i) for i in range(len(a))]))
    o.append(Op('(function(){var r=[];for(var i of a)r.push(i);return r;})()', lambda a: list(a)))
    o.append(Op('a.sizeOf()', len))
    o.append(Op('Array.isArray(a)', lambda a: True))
    o.append(Op('[a.length>0?a[0]:7,a.length>0?a[a.length-1]:7,a[a.length],a[-1]]',
                lambda a: [a[0] if a else 7, a[-1] if a else 7, None, None]))
    return o


def joiners():
    def st(x):
        return x if isinstance(x, str) else js(x)
    # tests/array.jsi pins that join leaves the elements converted to strings (see the
    # known finding); the model does the same
    def j(a, s):
        a[:] = [st(x) for x in a]
        return s.join(a)
    return [Op('a.join("%s")' % s, lambda a, s=s: j(a, s)) for s in ('', ',', '--')] + \
        [Op('a.join()', lambda a: j(a, ''))]


def mutators():
    m = [o_push(2), o_push(7, 'b'), o_pop(), o_shift(), o_unshift(4), o_unshift('c', 2),
         o_splice(0, 1), o_splice(1), o_splice(0), o_splice(1, 1), o_splice(-1, 1), o_splice(-2, 1), o_splice(1, 2),
         o_splice(0, 0, 5), o_splice(1, 0, 6, 'd'), o_splice(1, 1, 8), o_splice(2, 1, 8, 9), o_splice(-1, 0, 3), o_splice(0, 2, 1),
         o_splice(1, -1), o_splice(9, 1), o_splice(-9, 1, 2),
         Op('a.reverse()', lambda a: (a.reverse(), list(a))[1]),
         o_fill(0), o_fill(1, 1), o_fill('e', 0, 1), o_fill(3, -1), o_fill(3, -2, -1),
         o_set(0, 'z'), o_set(1, 2), o_set(9, 3),
         Op('(a=a.concat([1,2],3))', lambda a: (a.extend([1, 2, 3]), list(a))[1]),
         Op('(a=a.slice(1))', lambda a: (a.__delitem__(slice(0, 1)), list(a))[1]),
         Op('(a=a.map(function(x){return x;}))', lambda a: list(a)),
         Op('(a=a.filter(function(x){return x!==2;}))', lambda a: (a.__setitem__(slice(None), [x for x in a if not same(x, 2)]), list(a))[1]),
         ]
    return m


def step(op, a):
    r = op.fn(a)
    return V(r) + ' | %d %s' % (len(a), V(a))


def main():
    c = Ctx('A01')
    muts = mutators()
    obs = observers([2, 1, 'b', 8])
    starts = [[], [1], [1, 2], [2, 'b', 3], [1, 2, 3, 2, 5]]
    depth = 3 if not c.thorough else 4
    states = set()

    def hist():
        # all histories; every prefix is checked step by step; shorter first
        for d in range(1, depth + 1):
            for st in starts:
                if d == 4 and len(st) not in (0, 3):
                    continue
                for seq in itertools.product(range(len(muts)), repeat=d):
                    if d < depth and d > 2:
                        continue
                    a = list(st)
                    out = []
                    txt = []
                    for k in seq:
                        out.append(step(muts[k], a))
                        txt.append('var r=%s; P(a,[r]);' % muts[k].text)
                        states.add(V(a))
                    yield Case('start %s; %s' % (js(st), '; '.join(muts[k].text for k in seq)),
                               'var a=%s; ' % js(st) + ' '.join(txt), '\n'.join(out), d)

    def obscases():
        # every observer (and mutator) in every distinct reachable state up to a size
        sts = sorted(states, key=lambda s: (len(s), s))
        lim = 700 if not c.thorough else 6000
        def isnum(x): return isinstance(x, int)
        for s in sts[:lim]:
            base = eval(s, {})
            ops = obs + (joiners())
            if all(isnum(x) for x in base) or all(isinstance(x, str) for x in base):
                ops = ops + [o_sort('def'), o_sort('desc'), o_sort('uniq')]
                if all(isnum(x) for x in base):
                    ops = ops + [o_sort('num'), o_sort('rnum')]
            out, txt = [], []
            for op in ops:
                a = list(base)
                out.append(step(op, a))
                txt.append('a=%s; r=%s; P(a,[r]);' % (js(base), op.text))
            yield Case('state %s; every observer' % s, 'var a, r; ' + '\n'.join(txt), '\n'.join(out), len(ops))

    def sorts():
        # every array over a small alphabet, every sort mode; result must be the ordered permutation
        for n in range(0, 6 if not c.thorough else 8):
            for t in itertools.product((1, 2, 10), repeat=n):
                for k in ('num', 'rnum', 'def', 'desc', 'uniq'):
                    op = o_sort(k)
                    a = list(t)
                    yield Case('sort %s of %s' % (k, js(a)), 'var a=%s; var r=%s; P(a,[r]);' % (js(list(t)), op.text), step(op, a))
        for n in range(0, 5 if not c.thorough else 6):
            for t in itertools.product((0.5, 0.25, -0.75, 3000000000), repeat=n):
                for k in ('num', 'rnum', 'def', 'desc', 'uniq'):
                    op = o_sort(k)
                    a = list(t)
                    yield Case('sort %s of %s' % (k, js(a)), 'var a=%s; var r=%s; P(a,[r]);' % (js(list(t)), op.text), step(op, a))
        for n in range(0, 4):
            for t in itertools.product(('', 'a', 'B', 'b10', 'b9', 'é'), repeat=n):
                for k in ('def', 'desc', 'uniq'):
                    op = o_sort(k)
                    a = list(t)
                    yield Case('sort %s of %s' % (k, js(a)), 'var a=%s; var r=%s; P(a,[r]);' % (js(list(t)), op.text), step(op, a))

    def sweep():
        # growth: every length across the storage thresholds, each structural operation
        tops = [o_push(-1), o_push(-1, -2, -3), o_unshift(-1), o_unshift(-1, -2), o_pop(), o_shift(), o_splice(1, 1), o_splice(0, 3, -1),
                o_splice(2, 0, -1, -2, -3, -4), o_splice(-3, 2), Op('a.reverse()', lambda a: (a.reverse(), list(a))[1]),
                Op('(a=a.concat(a))', lambda a: (a.extend(list(a)), list(a))[1]), o_slice(1), o_slice(-3, -2), o_sort('rnum'), o_fill(0, 1, 2),
                Op('a.indexOf(a.length-1)', lambda a: len(a) - 1 if a else -1),
                
                Op('a.map(function(x){return x+1;}).reduce(function(p,x){return p+x;},0)', lambda a: sum(a) + len(a))]
        # one case per length; digests keep the output small
        for n in list(range(0, 140)) + [199, 200, 201, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097] + ([9999, 10000] if c.thorough else []):
            for how in ('push', 'index', 'unshift'):
                if n > 300 and how == 'unshift': continue
                build = {'push': 'for(i=0;i<%d;i++)a.push(i);', 'index': 'for(i=0;i<%d;i++)a[i]=i;', 'unshift': 'for(i=%d-1;i>=0;i--)a.unshift(i);'}[how] % n
                out, txt = [], []
                for op in tops:
                    a = list(range(n))
                    r = op.fn(a)
                    out.append(dig(r) + ' ' + dig(a))
                    txt.append('a=[]; %s r=%s; puts(H([r])+" "+H([a]));' % (build, op.text))
                yield Case('length %d built by %s; %s' % (n, how, ' / '.join(o.text for o in tops)), 'var a,r,i; ' + '\n'.join(txt), '\n'.join(out), len(tops))

    def dig(x):
        if isinstance(x, list):
            h = 0
            for i, y in enumerate(x):
                h = (h * 31 + y + i) % 1000003
            return '%d#%d' % (len(x), h)
        return V(x)

    def holes():
        # elements that were never set: they count for the length and move with the others, and are not visited
        U = None
        look = ['a.indexOf(2)', 'a.lastIndexOf(1)', 'a.includes(2)', 'a.reduce(function(p,x){return p*10+x;})', 'a.reduceRight(function(p,x){return p*10+x;})',
                'a.reduce(function(p,x,i){return p+x+i;},"r")', 'a.every(function(x){return x===1;})', 'a.some(function(x){return x===2;})', 'a.find(function(x){return x===2;})',
                'a.findIndex(function(x){return x===2;})', '(function(){var r=""; a.forEach(function(x,i){r+=i+":"+x+" ";}); return r;})()', 'S(a.slice(1))', 'S(a.slice(-2))', 'S(a.slice(0,2))',
                'S(a.concat([4]))', 'S([4].concat(a))', 'S(a.map(function(x){return x+1;}))', 'a.filter(function(x){return x===1;}).length']
        def looked(a):
            v = [(i, x) for i, x in enumerate(a) if x]
            def red(l):
                if not l: return U
                r = l[0]
                for x in l[1:]: r = r * 10 + x
                return r
            xs = [x for _, x in v]
            return [xs and 2 in xs and a.index(2) if 2 in xs else -1, max([i for i, x in v if x == 1] or [-1]), 2 in xs, red(xs), red(xs[::-1]), 'r' + ''.join('%d%d' % (x, i) for i, x in v),
                    all(x == 1 for x in xs), 2 in xs, 2 if 2 in xs else U, a.index(2) if 2 in xs else -1, ''.join('%d:%d ' % t for t in v), o_slice(1).fn(a), o_slice(-2).fn(a), o_slice(0, 2).fn(a), a + [4], [4] + a, [x + 1 if x else U for x in a], xs.count(1)]
        ops = {'a.shift()': lambda a: (a.pop(0) if a else U, a)[0], 'a.pop()': lambda a: a.pop() if a else U, 'a.unshift(5)': lambda a: (a.insert(0, 5), len(a))[1],
               'a.push(6)': lambda a: (a.append(6), len(a))[1], 'S(a.splice(1,1))': o_splice(1, 1).fn, 'S(a.splice(0,2,8))': o_splice(0, 2, 8).fn,
               'S(a.reverse())': lambda a: (a.reverse(), list(a))[1], 'S(a.splice(1,0,7))': o_splice(1, 0, 7).fn, '(a[a.length+1]=3)': lambda a: (a.extend([U, 3]), 3)[1]}
        def t(x):
            if x is U: return 'U'
            if isinstance(x, bool): return 'true' if x else 'false'
            return '[%s]' % ','.join(map(t, x)) if isinstance(x, list) else str(x)
        for n in range(1, 5 if not c.thorough else 6):
            for pat in itertools.product((U, 1, 2), repeat=n):
                if pat[-1] is U or U not in pat and n > 2: continue
                mk = 'a=[]; ' + ''.join('a[%d]=%d; ' % (i, x) for i, x in enumerate(pat) if x)
                yield Case('holes %s' % t(list(pat)), 'var a; %s W([%s]);' % (mk, ','.join('function(){return %s;}' % l for l in look)), ' '.join(map(t, looked(list(pat)))), len(look))
                for k in range(1, 3 if not c.thorough else 4):
                    for seq in itertools.product(ops, repeat=k):
                        a, out = list(pat), []
                        for o in seq:
                            r = ops[o](a)
                            out += [t(r), t(a)]
                        yield Case('holes %s: %s' % (t(list(pat)), '; '.join(seq)), 'var a; %s W([%s]);' % (mk, ','.join('function(){return %s;},function(){return S(a);}' % o for o in seq)), ' '.join(out), k)

    def alias():
        # arrays are references; copies are shallow
        yield Case('alias', 'var a=[1,[2]], b=a, d=a.slice(0), e=a.concat(); b.push(3); a[1].push(4); P(a,[0]);P(b,[0]);P(d,[0]);P(e,[0]);',
                   '0 | 3 [1,[2,4],3]\n0 | 3 [1,[2,4],3]\n0 | 2 [1,[2,4]]\n0 | 2 [1,[2,4]]', 4)
        yield Case('alias pop', 'var x=[9]; var a=[x,x]; var y=a.pop(); y.push(1); P(a,[y]); P(x,[x===y]);', '[9,1] | 1 [[9,1]]\ntrue | 2 [9,1]', 2)
        yield Case('alias splice', 'var x=[9]; var a=[1,x,2]; var y=a.splice(1,1); y[0].push(1); P(a,[y]); P(x,[0]);', '[[9,1]] | 2 [1,2]\n0 | 2 [9,1]', 2)
        yield Case('alias shift', 'var x=[9]; var a=[x,x,1]; a.shift(); a.shift(); P(a,[x]);', '[9] | 1 [1]', 2)

    P2 = PROLOG + '\nfunction H(x){ if (typeof x[0]!=="array") return V1(x); x=x[0]; var h=0; for (var i=0;i<x.length;i++) h=(h*31+x[i]+i+1000003)%1000003; return x.length+"#"+h; }\n'
    c.run_cases(alias(), 10, P2)
    c.run_cases(holes(), 600, P2 + 'function S(a) { var o=[]; for (var i=0;i<a.length;i++) o.push(typeof a[i]==="undefined"?"U":a[i]); return "["+o.join(",")+"]"; }\nfunction W(l) { var o=[]; for (var f of l) { var r=f(); o.push(typeof r==="undefined"?"U":r); } puts(o.join(" ")); }\n')
    c.run_cases(hist(), 800, P2)
    if not c.stop: c.run_cases(obscases(), 40, P2)
    if not c.stop: c.run_cases(sorts(), 800, P2)
    if not c.stop: c.run_cases(sweep(), 12, P2)
    c.cov['states'] = len(states)
    c.cov['depth'] = depth
    c.cov['alphabet'] = [m.text for m in muts]
    c.finish()


if __name__ == '__main__':
    main()
