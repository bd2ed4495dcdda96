"""Timers and the event loop under a virtual clock: every small program of timers, callback actions and update calls,
at every alignment of the clock around a second boundary, in every order the due timers of one pass can run in."""
import itertools, os, subprocess
from mc.core import Ctx, Case, VERIF

PROLOG = r'''
function now() { return System.strptime(); }
function align(ms) { var d = (ms - now() % 1000 + 1000) % 1000; if (d > 0) sleep(d); }
var B, I = {}, L;
function nm() { var a = Event.names(), o = [], k; for (k in I) { if (I[k] >= 0 && a.indexOf(I[k]) >= 0) o.push(k); } return o.sort().join(''); }
function clr(k) { try { clearInterval(I[k]); } catch(e) { L.push('none'); } }
function ev(k) { try { var e = Event.info(I[k]); return e.type+','+e.once+','+e.when+','+e.count+','+e.initial; } catch(x) { return 'none'; } }
function done() { var a = Event.names(); L.push(nm()); for (var i=0; i<a.length; i++) clearInterval(a[i]); L.push(Event.names().length); puts(L.join(' ')); I = {}; }
function begin(ms) { L = []; I = {}; align(ms); B = now(); }
function go(k) { L.push(k+(now()-B)); }
function up(o) { L.push('='+update(o)); }
function up0() { L.push('='+update()); }
'''
# ---------------------------------------------------------------- programs
# timer spec: (name, once, delay, action);  action: None | ('clr', name) | ('new', name, once, delay) | ('up', arg) | ('sleep', ms) | ('throw',)
# driver op: ('up', arg) | ('sleep', ms) | ('clr', name) | ('ev', name) | ('new', spec)


def uparg(a):
    """(minTime, maxPasses, maxEvents, sleep)"""
    if isinstance(a, dict):
        return a.get('minTime', 0), a.get('maxPasses', 0), a.get('maxEvents', -1), a.get('sleep', 1)
    return a or 0, 0, -1, 1


def jsup(a):
    if a is None: return 'up0();'
    if isinstance(a, dict): return 'up({%s});' % ', '.join('%s:%d' % kv for kv in a.items())
    return 'up(%d);' % a


def jsact(a):
    if a is None: return ''
    if a[0] == 'seq': return ' '.join(jsact(x) for x in a[1:])
    if a[0] == 'clr': return "clr('%s');" % a[1]
    if a[0] == 'new': return jsnew(a[1])
    if a[0] == 'up': return jsup(a[1])
    if a[0] == 'sleep': return 'sleep(%d);' % a[1]
    if a[0] == 'throw': return "throw 'boo';"
    if a[0] == 'ev': return "L.push(ev('%s'));" % a[1]
    if a[0] == 'nm': return "L.push('['+nm()+']');"
    raise ValueError(a)


def jsnew(s):
    k, once, d, act = s
    return "I['%s'] = set%s(function() { go('%s'); %s }, %s);" % (k, 'Timeout' if once else 'Interval', k, jsact(act), d)


class Boo(Exception): pass


class Sim:
    """One execution of the model; the order of the due timers in a pass is a choice point."""
    def __init__(self, phase, choices):
        self.t = phase; self.b = phase; self.ev = {}; self.cur = {}; self.id = 0; self.log = []
        self.ch = choices; self.pos = 0; self.trail = []; self.steps = 0

    def choose(self, n):
        if n <= 1: return 0
        c = self.ch[self.pos] if self.pos < len(self.ch) else 0
        self.pos += 1
        self.trail.append((c, n))
        return c

    def new(self, s):
        k, once, d, act = s
        self.id += 1
        d = max(int(d), 0)
        self.cur[k] = self.id
        self.ev[self.id] = {'k': k, 'once': once, 'd': d, 'act': act, 'when': self.t + d, 'busy': False, 'n': 0}

    def act(self, a):
        self.steps += 1
        if a is None: return
        op = a[0]
        if op == 'seq':
            for x in a[1:]: self.act(x)
        elif op == 'clr':
            if self.ev.pop(self.cur.get(a[1], -1), None) is None: self.log.append('none')
        elif op == 'new': self.new(a[1])
        elif op == 'up': self.log.append('=%d' % self.update(a[1]))
        elif op == 'sleep': self.t += a[1]
        elif op == 'throw': raise Boo()
        elif op == 'nm': self.log.append('[' + self.names() + ']')
        elif op == 'ev':
            e = self.ev.get(self.cur.get(a[1], -1))
            self.log.append('none' if e is None else 'timer,%s,%d,%d,%d' % ('true' if e['once'] else 'false', e['when'] - self.t, e['n'], e['d']))

    def names(self):
        return ''.join(sorted(k for k, i in self.cur.items() if i in self.ev))

    def pas(self, maxev):
        t0, cnt = self.t, 0
        ids = [i for i in self.ev]
        while ids:
            live = [i for i in ids if i in self.ev and not self.ev[i]['busy'] and self.ev[i]['when'] <= t0]
            if not live: break
            i = live[self.choose(len(live))]
            ids.remove(i)
            e = self.ev[i]
            cnt += 1
            e['n'] += 1
            e['busy'] = True
            self.log.append('%s%d' % (e['k'], self.t - self.b))
            try: self.act(e['act'])
            except Boo: pass
            e['busy'] = False
            if i in self.ev:
                if e['once']: del self.ev[i]
                else: e['when'] = t0 + e['d']
            if maxev >= 0 and cnt >= maxev: break
        return cnt

    def update(self, a):
        mint, maxp, maxe, slp = uparg(a)
        start, cnt, n = self.t, 0, 0
        while True:
            cnt += self.pas(maxe - cnt if maxe >= 0 else -1)
            if mint == 0: break
            if mint > 0 and self.t - start >= mint: break
            n += 1
            if maxp and n >= maxp: break
            if maxe >= 0 and cnt >= maxe: break
            self.t += slp
            self.steps += 1
        return cnt


def outcomes(phase, prog, limit=400):
    res, todo, steps, runs = set(), [[]], 0, 0
    while todo:
        runs += 1
        if runs > limit: return None, steps     # too many orders: not a case of this check
        ch = todo.pop()
        s = Sim(phase, ch)
        for op in prog: s.act(op)
        s.log.append(s.names())
        s.log.append('0')
        res.add(' '.join(s.log))
        steps += s.steps
        for j in range(len(ch), len(s.trail)):
            c, n = s.trail[j]
            base = [x for x, _ in s.trail[:j]]
            for k in range(1, n): todo.append(base + [k])
    return res, steps


def mk(key, phase, prog):
    exp, steps = outcomes(phase, prog)
    if exp is None: return None
    def chk(got, exp=exp):
        g = got.strip('\n')
        if g in exp: return None
        return 'got %r; the possible outcomes are %s' % (g, ' | '.join(sorted(exp)[:6]))
    src = 'begin(%d);\n%s\ndone();' % (phase, '\n'.join(jsact(op) for op in prog))
    c = Case(key, src, chk, n=max(1, steps))
    return c


# ---------------------------------------------------------------- enumeration
def acts(k, other, t):
    a = [None, ('clr', k), ('clr', other), ('new', ('z', True, 0, None)), ('new', ('z', False, 1, None)),
         ('new', (k, True, 1, None)), ('up', None), ('up', 2), ('sleep', 3), ('throw',),
         ('seq', ('clr', k), ('new', ('z', True, 1, None))), ('seq', ('clr', k), ('up', 2)), ('seq', ('up', None), ('clr', other)),
         ('seq', ('ev', k), ('nm',))]
    if t: a += [('seq', ('clr', other), ('clr', k), ('up', None)), ('seq', ('sleep', 1), ('up', 1), ('throw',)),
                ('new', ('z', False, 0, ('clr', 'z'))), ('new', ('z', True, 1, ('up', None)))]
    return a


U = ('up', None)
DRIVERS = [
    [U, ('sleep', 1), U, ('sleep', 1), U],
    [('up', 4)],
    [('sleep', 3), U, U],
    [('up', {'minTime': 6, 'maxPasses': 3})],
    [('up', {'minTime': 4, 'maxEvents': 1}), U],
    [('up', {'minTime': 6, 'sleep': 2}), ('sleep', 1), U],
    [('up', {'minTime': 5, 'maxEvents': 3, 'sleep': 3}), ('up', 2)],
]


def cases(T):
    # one timer: every delay around the second boundary x phase x kind x update length
    for ph in (0, 1, 499, 500, 996, 997, 998, 999):
        for d in (0, 1, 2, 3, 4, 5, 6, 999, 1000, 1001, 1999, 2000, 2003, -5, '2.7'):
            dd = float(d) if isinstance(d, str) else d
            for once in (True, False):
                for drv in (U, ('sleep', 1), ('sleep', 2)), (('up', 1), ('up', 1), ('ev', 'a')), (('up', 5), ('ev', 'a'), ('up', 3), ('ev', 'a')), \
                        (('up', {'minTime': 2010, 'sleep': 7}),), (('up', {'minTime': 3000, 'sleep': 250}), ('ev', 'a')), (('sleep', 1000), ('ev', 'a'), U, U, ('ev', 'a')), \
                        (('sleep', 999), U, ('sleep', 1), U, ('sleep', 1), U), (('ev', 'a'), ('clr', 'a'), ('clr', 'a'), ('up', 3), ('ev', 'a')):
                    if not once and dd <= 1 and any(o[0] == 'up' and isinstance(o[1], dict) and o[1]['sleep'] == 7 for o in drv): continue
                    spec = ('a', once, d if not isinstance(d, str) else float(d), None)
                    c = mk('phase %d: %s(%s); %s' % (ph, 'timeout' if once else 'interval', d, drv), ph, [('new', spec)] + list(drv))
                    if c: yield c
    # the length of an update, from every phase
    for ph in (range(0, 1000, 50) if not T else range(0, 1000, 10)):
        for m in (1, 50, 100, 500, 950, 999, 1000, 1001, 2500):
            for slp in (50, 125, 1000):
                c = mk('phase %d: interval(0), update minTime %d sleep %d' % (ph, m, slp), ph, [('new', ('a', False, 100, None)), ('up', {'minTime': m, 'sleep': slp}), ('ev', 'a')])
                if c: yield c
    # two timers with every pair of callback actions
    ds = (0, 1, 3) if T else (0, 2)
    for i, drv in enumerate(DRIVERS):
        for (o1, d1, o2, d2) in itertools.product((True, False), ds, (True, False), ds):
            A1, A2 = acts('a', 'b', T), acts('b', 'a', T)
            for x, a1 in enumerate(A1):
                for y, a2 in enumerate(A2):
                    if not T and (x + 3 * y + i + d1) % 3: continue
                    for ph in ((0, 997, 999) if T else ((0, 998, 999)[(x + y) % 3],)):
                        prog = [('new', ('a', o1, d1, a1)), ('new', ('b', o2, d2, a2))] + drv
                        c = mk('phase %d: %s' % (ph, prog), ph, prog)
                        if c: yield c
    # three timers, one acting
    for (d1, d2, d3) in itertools.product((0, 1), repeat=3):
        for o in itertools.product((True, False), repeat=3):
            for a1 in acts('a', 'b', True) + [('seq', ('clr', 'b'), ('clr', 'c')), ('seq', ('clr', 'c'), ('new', ('d', True, 0, None)), ('up', None))]:
                for drv in DRIVERS[:4] if T else DRIVERS[1:3]:
                    prog = [('new', ('a', o[0], d1, a1)), ('new', ('b', o[1], d2, None)), ('new', ('c', o[2], d3, ('clr', 'a')))] + drv
                    c = mk('phase 998: %s' % prog, 998, prog)
                    if c: yield c


def many(T):
    """one callback changes a table of many timers during the pass: sizes around every growth of the table"""
    for n in sorted(set(list(range(2, 20)) + [24, 25, 47, 48, 49, 50, 100, 191, 192, 193, 194, 260, 400]) | (set(range(20, 120)) if T else set())):
        for who in sorted({0, 1, n // 2, n - 1}):
            for what in ('all', 'others', 'odd', 'next', 'prev', 'add', 'addclr', 'nested', 'nestclr'):
                for once in (0, 1):
                    body = {'all': 'for (j=0; j<n; j++) { if (live[j]) { clearInterval(ids[j]); live[j] = 0; } }',
                            'others': 'for (j=0; j<n; j++) { if (j!=i && live[j]) { clearInterval(ids[j]); live[j] = 0; } }',
                            'odd': 'for (j=1; j<n; j+=2) { if (live[j]) { clearInterval(ids[j]); live[j] = 0; } }',
                            'next': 'j=(i+1)%n; if (live[j]) { clearInterval(ids[j]); live[j] = 0; }',
                            'prev': 'j=(i+n-1)%n; if (live[j]) { clearInterval(ids[j]); live[j] = 0; }',
                            'add': 'for (j=0; j<3*n; j++) setTimeout(function() { late++; }, 0);',
                            'addclr': 'for (j=0; j<n; j++) { if (j!=i && live[j]) { clearInterval(ids[j]); live[j] = 0; } setTimeout(function() { late++; }, 0); }',
                            'nested': 'update();',
                            'nestclr': 'update(); for (j=0; j<n; j++) { if (live[j]) { clearInterval(ids[j]); live[j] = 0; } }'}[what]
                    src = '''var n = %d, who = %d, once = %d, ids = [], live = [], ran = [], late = 0, dead = 0, depth = 0, i, first = 1;
function T(i) { return function() { var j; if (!live[i]) dead++; ran[i]++; if (once) live[i] = 0; if (i===who && first) { first = 0; %s } }; }
for (i=0; i<n; i++) { live[i] = 1; ran[i] = 0; ids[i] = once ? setTimeout(T(i), 0) : setInterval(T(i), 0); }
var c1 = update(), r1 = ran.join(''), l1 = live.join(''), lt = late;
ran = []; for (i=0; i<n; i++) ran[i] = 0;
var c2 = update(), r2 = ran.join('');
puts(r1+' '+l1+' '+r2+' '+lt+' '+late+' '+dead+' '+c1+' '+c2+' '+Event.names().length);
var a = Event.names(); for (i=0; i<a.length; i++) clearInterval(a[i]); puts(Event.names().length);''' % (n, who, once, body)
                    def chk(got, n=n, who=who, what=what, once=once):
                        ln = got.strip('\n').split('\n')
                        if len(ln) != 2 or ln[1] != '0': return 'expected two lines ending in 0: %.300r' % got
                        f = ln[0].split(' ')
                        if len(f) != 9: return '%.300r' % got
                        r1, l1, r2 = f[0], f[1], f[2]
                        lt, late, dead, c1, c2, left = map(int, f[3:])
                        if dead: return 'a cleared timer ran (%d times)' % dead
                        if len(r1) != n or len(r2) != n or len(l1) != n: return 'a timer ran ten times or more in one pass: %s' % r1
                        add = {'add': 3 * n, 'addclr': n}.get(what, 0)
                        if lt or late != add: return '%d timers made in a pass ran in it; %d of %d in the next' % (lt, late - lt, add)
                        if r1[who] != '1': return 'timer %d ran %s times in a pass' % (who, r1[who])
                        nest = what in ('nested', 'nestclr')
                        for i in range(n):
                            hi = 2 if nest and not once and i != who else 1
                            hit = what in ('all', 'others', 'odd', 'next', 'prev', 'addclr', 'nestclr')
                            if int(r1[i]) > hi or (r1[i] == '0' and not (hit and l1[i] == '0')): return 'timer %d of %d ran %s times in the pass' % (i, n, r1[i])
                            if once:
                                if r2[i] != '0': return 'timeout %d ran again' % i
                            elif r2[i] != l1[i]: return 'timer %d (%s) ran %s times in the second pass' % (i, 'live' if l1[i] == '1' else 'cleared', r2[i])
                        if c2 != r2.count('1') + add: return 'second update returned %d, %d ran' % (c2, r2.count('1') + add)
                        if not nest and c1 != r1.count('1'): return 'first update returned %d, %d ran' % (c1, r1.count('1'))
                        if left != (0 if once else l1.count('1')): return '%d timers left, %d live' % (left, l1.count('1'))
                    yield Case('%d timers, timer %d does "%s" in the pass, %s' % (n, who, what, 'once' if once else 'repeating'), src, chk, n=n * 2)


def main():
    c = Ctx('R01')
    so = os.path.join(c.scratch, 'vclock.so')
    subprocess.check_call(['gcc', '-shared', '-fPIC', '-O1', '-o', so, os.path.join(VERIF, 'checks/c/vclock.c')])
    os.chmod(so, 0o755)
    env = {'LD_PRELOAD': so, 'VCLOCK_US': '1000000000000000'}
    T = c.thorough
    n = c.run_cases(cases(T), batch=150, prolog=PROLOG, env=env)
    m = c.run_cases(many(T), batch=20, env=env)
    # the same histories again with every access to freed memory trapped
    k = 0
    if not c.stop:
        sub = itertools.islice(many(False), 0, None, 1 if T else 9)
        two = (x for i, x in enumerate(cases(False)) if i % (5 if T else 40) == 0)
        asan = os.path.join('/usr/lib', 'gcc')
        lib = subprocess.run(['gcc', '-print-file-name=libasan.so'], stdout=subprocess.PIPE).stdout.decode().strip()
        e2 = dict(env, LD_PRELOAD='%s:%s' % (os.path.realpath(lib), so))
        k = c.run_cases(two, batch=60, prolog=PROLOG, env=e2, kind='asan')
        k += c.run_cases(sub, batch=10, env=e2, kind='asan')
    c.cov['states'] = n + m + k
    c.cov['bounds'] = ('one timer: 15 delays x 8 clock phases x 2 kinds x 8 update programs; update lengths 9 x 3 sleeps x %d phases; two timers: 2 kinds and %d delays each, %d x %d actions, %d update programs; '
                       'three timers with one acting; tables of 2..400 timers changed by one callback; every order of the due timers of each pass is a permitted outcome; %d histories again under ASan'
                       % (100 if T else 20, 3 if T else 2, 18 if T else 14, 18 if T else 14, len(DRIVERS), k))
    c.finish()


if __name__ == '__main__':
    main()
