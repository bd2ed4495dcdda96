"""Interpreters in their own threads: every program of a few operations on threads is run under a scheduler that decides at every lock,
sleep, allocation, start and end which thread goes on, through all schedules with up to d departures from a fixed order."""
import itertools, json, os, subprocess, sys, threading
from concurrent.futures import ThreadPoolExecutor
from mc.core import Ctx, Case, NCPU

HERE = os.path.dirname(os.path.abspath(__file__))
HEAD = '''var got=[], out=[];
function rec(p:any=0, a:any=0) { got.push(a); }
function T(f) { try { var r=f(); if (typeof r==='undefined') r='U'; } catch(e) { r='X'; }; out.push(r); }
'''
SUB = "function h(j:any=0, a:any=0) { L.push(a); if (j<9) eval('k'+j+'('+a+');'); } var n=0,go=1,L=[]; function f(a:any=0) { L.push(a); send(a); return L.length; } while (go) update(1); "
MARK = "File.exists('vmc-mark');\n"
END = "puts(JSON.stringify([out,got,F]));\n"


def program(ops, pre=True):
    """ops: text of operations, each with its number; the sub-interpreter keeps a log of them."""
    s = HEAD + 'var F="";\nvar I=new Interp({subthread:true, scriptStr:%s});\nI.alias("send", rec, [1]);\nupdate(5);\n' % json.dumps(SUB) + MARK
    for i, o in enumerate(ops):
        s += {'c': 'I.call("f",[%d]);', 'e': 'I.eval("L.push(%d)",true);', 'E': 'T(function() { return I.eval("L.push(%d);L.join()"); });', 'T': 'T(function() { return I.eval("L.push(%d); throw 5;"); });',
              'w': 'T(function() { return I.call("f",[%d],true); });', 'u': 'update(2); out.push(%d);', 'k': 'I.alias("k%d",function(p:any=0,a:any=0) { got.push(a); },[1],true);', 'C': 'I.call("h",[J,%d]);', 'K': 'I.eval("L.push(%d); k%%d(%%d)",true);'}[o] % i
        if o == 'K': s = s.replace('%d(%d)', '%d(%d)' % (max((j for j in range(i) if ops[j] == 'k'), default=99), i))
        s = s.replace('[J,', '[%d,' % max((j for j in range(i) if ops[j] == 'k'), default=99)) + '\n'
    return s + MARK + 'F=I.eval("L.join()"); I.eval("go=0;1"); update(20);\n' + END


def judge(ops, o):
    try: out, got, F = json.loads(o)
    except ValueError: return 'no result'
    if F is None: F = ''
    F = [int(x) for x in str(F).split(',') if x]
    want = sorted(i for i, x in enumerate(ops) if x in 'ceETwKC')
    if sorted(F) != want: return 'ran %r and not each of %r once' % (F, want)
    fifo = [i for i in F if ops[i] != 'w']
    if fifo != sorted(fifo): return 'not in order: %r' % F
    it = iter(out)
    done = []                        # known to have run
    for i, x in enumerate(ops):
        if x in 'wETKCce' and any(F.index(j) > F.index(i) for j in done): return 'out of order: %r' % F
        if x == 'E':
            r = next(it)
            v = [int(y) for y in str(r).split(',')]
            if v != F[:len(v)] or v[-1] != i: return 'eval gave %r, the log is %r' % (r, F)
            done += v
        elif x == 'T':
            if next(it) != 'X': return 'no error from eval'
            done.append(i)
        elif x == 'w':
            r = next(it)
            if r != F.index(i) + 1: return 'call gave %r, the log is %r' % (r, F)
            done.append(i)
        elif x == 'u': next(it)
        if x in 'wET': done += [j for j in range(i) if ops[j] in 'wET']
    # What was sent: calls in the order they ran; aliases.
    sent = [i for i in F if ops[i] in 'cw' or ops[i] in 'KC' and 'k' in ops[:i]]
    if got != sent: return 'received %r, sent %r' % (got, sent)
    return None


# Whole lives: name, program, judge of (out, got, F).
def life(s, sub=SUB, pre='update(5);\n' + MARK, post=MARK):
    return HEAD + 'var F="";\nvar I=new Interp({subthread:true, scriptStr:%s});\nI.alias("send", rec, [1]);\n' % json.dumps(sub) + pre + s + '\n' + post + 'update(20);\n' + END


def one(*alts): return lambda out, got, F: None if [out, got] in [list(a) for a in alts] else 'out %r got %r, expected one of %r' % (out, got, alts)


E1 = 'T(function() { return I.eval("1+1"); });'
C1 = 'T(function() { I.call("f",[1]); return 1; });'
LIVES = [
    ('deleted while it runs', life('I.call("f",[1]); delete I;'), one([[], [1]])),
    ('deleted, told to end', life('I.call("f",[1]); I.eval("go=0",true); delete I;'), one([[], [1]])),
    ('deleted with things queued', life('I.eval("go=0",true); ' + C1 + C1.replace('[1]', '[2]') + ' delete I;'), lambda o, g, F: None if g == [1, 2][:len(g)] else 'got %r' % g),
    ('eval while it ends', life('I.eval("go=0",true); ' + E1), one([[2], []], [['X'], []])),
    ('two evals while it ends', life('I.eval("go=0",true); ' + E1 + E1), one([[2, 2], []], [['X', 'X'], []], [[2, 'X'], []])),
    ('call while it ends', life('I.eval("go=0",true); ' + C1 + ' update(3);' + E1), lambda o, g, F: None if o in ([1, 'X'], ['X', 'X'], [1, 2]) and g in ([], [1]) and (g == [] or o[0] == 1) else 'out %r got %r' % (o, g)),
    ('waiting call while it ends', life('I.eval("go=0",true); T(function() { return I.call("f",[1],true); }); update(3);' + E1), lambda o, g, F: None if o in ([1, 'X'], ['X', 'X'], [1, 2]) and g == ([1] if o[0] == 1 else []) else 'out %r got %r' % (o, g)),
    ('conf and info while it ends', life('I.eval("go=0",true); T(function() { return typeof I.info(); }); T(function() { return I.conf("name"); }); T(function() { return typeof I.info(); });'), lambda o, g, F: None if len(o) == 3 else 'out %r' % o),
    ('alias while it ends', life('I.eval("go=0",true); T(function() { I.alias("zz",rec,[1]); return 1; }); update(2); delete I;'), lambda o, g, F: None if o in ([1], ['X']) else 'out %r' % o),
    ('from the start', life(E1 + C1, pre='', post=MARK).replace('var I=', MARK + 'var I='), lambda o, g, F: None if o == [2, 1] and g in ([], [1]) else 'out %r got %r' % (o, g)),
    ('script without a loop', life('update(3);' + E1 + 'delete I;', sub='send(7);', pre='', post=MARK).replace('var I=', MARK + 'var I='), lambda o, g, F: None if o in ([2], ['X']) and g in ([], [7]) else 'out %r got %r' % (o, g)),
    ('script that fails', life('update(3);' + E1 + 'delete I;', sub='send(7); throw 3;', pre='update(3);' + MARK, post=MARK), lambda o, g, F: None if o in ([2], ['X']) else 'out %r got %r' % (o, g)),
    ('exit while it runs', life('I.call("f",[1]); T(function() { return I.call("f",[2],true); }); puts(JSON.stringify([out,got,F])); exit(0);'), lambda o, g, F: None if o in ([1], [2]) else 'out %r' % o),
    ('end of the program while it runs', HEAD + 'var F="", I=new Interp({subthread:true, scriptStr:%s});\nI.alias("send", rec, [1]);\nupdate(5);\n' % json.dumps(SUB) + MARK + 'I.call("f",[1]); I.call("f",[2]);\n' + END, lambda o, g, F: None if g == [] else 'got %r' % g),
    ('two threads', life('var J=new Interp({subthread:true, scriptStr:"var go=1; function g(a:any=0) { send(a); return 3; } while (go) update(1);"}); J.alias("send", rec, [2]); I.call("f",[1]); update(2); T(function() { return J.eval("1"); }); T(function() { return J.call("g",[4],true); }); T(function() { return I.eval("L.join()"); });',
        post=MARK + 'I.eval("go=0;1"); J.eval("go=0;1");\n'), lambda o, g, F: None if o == [1, 3, '1'] and sorted(g) == [1, 4] else 'out %r got %r' % (o, g)),
    ('two threads, each to the parent', life('J.call("f",[11]); I.call("f",[1]); J.call("f",[12]); I.call("f",[2]); T(function() { return I.eval("L.join()"); }); T(function() { return J.eval("L.join()"); });',
        pre='var J=new Interp({subthread:true, scriptStr:%s}); J.alias("send", rec, [2]); update(5);\n' % json.dumps(SUB) + MARK, post=MARK + 'I.eval("go=0;1"); J.eval("go=0;1");\n'),
        lambda o, g, F: None if o == ['1,2', '11,12'] and [x for x in g if x < 9] == [1, 2] and [x for x in g if x > 9] == [11, 12] and len(g) == 4 else 'out %r got %r' % (o, g)),
    ('a queue longer than one pass', life(''.join('I.call("f",[%d]);' % i for i in range(8)) + 'T(function() { return I.eval("L.join()"); });', post=MARK + 'I.eval("go=0;1");\n'), one([['0,1,2,3,4,5,6,7'], list(range(8))])),
    ('events within a call', life('I.call("h",[1]); I.call("h",[2]); T(function() { return I.eval("h(3)"); });', sub='var go=1,d=0,L=[]; function h(a:any=0) { L.push(a); d=d+1; if (d<3) update(2); d=d-1; send(a); return L.length; } while (go) update(1);', post=MARK + 'I.eval("go=0;1");\n'),
        lambda o, g, F: None if o == [3] and sorted(g) == [1, 2, 3] else 'out %r got %r' % (o, g)),
    ('results that change', life('T(function() { return I.eval("var z={a:[1,L.length]}; z"); }); I.eval("z=null; 77",true); out.push(I.eval("[[]]")); T(function() { return I.eval("null"); }); T(function() { return I.eval("\'a#q\'"); });', post=MARK + 'I.eval("go=0;1");\n'),
        lambda o, g, F: None if o == [{'a': [1, 0]}, [[]], None, 'a#q'] else 'out %r' % o),
    ('results the thread goes on changing', life('for (var i=0;i<2;i++) { T(function() { return I.call("g",[],true); }); out.push(I.eval("L")); }', sub="var go=1,n=10,P='abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyz',L=['','','','','','']; function g() { return L; } while (go) { n=n+1; for (var k=0;k<6;k++) L[k]=P+n; update(1); }", post=MARK + 'I.eval("go=0;1");\n'),
        lambda o, g, F: None if len(o) == 4 and all(isinstance(x, list) and len(x) == 6 and len(set(x)) == 1 for x in o) and o == sorted(o) else 'out %r' % o),
    ('callbacks into the parent', life('I.eval("ask(2)",true); for (var i=0;i<6;i++) update(2); T(function() { return I.eval("L.join()"); });', pre='I.alias("ask",function(p:any=0,a:any=0) { got.push(a); I.call("f",[a*10]); if (a<4) I.eval("ask("+(a+1)+")",true); },[1]); update(5);\n' + MARK, post=MARK + 'I.eval("go=0;1");\n'),
        lambda o, g, F: None if [x for x in g if x < 10] == [2, 3, 4] and o[0] == ','.join(map(str, [20, 30, 40][:len(str(o[0]).split(','))])) or o == [''] or o == [20] else 'out %r got %r' % (o, g)),
    ('within one thread', HEAD + 'var F="", m=0, I=new Interp();\nI.eval("function f(a:any=0) { up(a); } function g(a:any=0) { send(a); }"); I.alias("send", rec, [1]); I.alias("up",function(a:any=0) { if (++m<4) { I.call("g",[a+m]); I.call("f",[a]); got.push(-a); } },null);\n' + MARK
        + 'I.call("f",[10]);\n' + MARK + END, one([[], [11, 12, 13, -10, -10, -10]])),
]
CODES = {94: 'a held lock was destroyed', 95: 'a lock held by another thread was released', 97: 'deadlock', 98: 'no end'}


class Explorer:
    def __init__(self, c, exe, pre, asan):
        self.c, self.exe, self.pre, self.asan = c, exe, pre, asan
        self.n, self.lk, self.points = 0, threading.Lock(), 0

    def run(self, prog, devs, malloc, need=False):
        with self.lk: self.n += 1; k = self.n
        log = '%s/log%s%d' % (self.c.scratch, 'a' if self.asan else '', k)
        env = {'PATH': '/nonexistent', 'HOME': self.c.scratch, 'LANG': 'C', 'TZ': 'UTC', 'SCHED': ','.join('%d:%d' % d for d in devs), 'LD_PRELOAD': self.pre, 'ASAN_OPTIONS': 'detect_leaks=0'}
        if need: env['SCHEDLOG'] = log
        if malloc: env['SCHEDMALLOC'] = '1'
        try:
            p = subprocess.run([self.exe, prog], env=env, cwd=self.c.scratch, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
            o = (p.returncode, p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace')[-3000:])
        except subprocess.TimeoutExpired: o = ('hang', '', '')
        L = []
        if not need: return o, L
        try:
            for l in open(log):
                l = l.split()
                if len(l) >= 4: L.append((int(l[0]), [int(x) for x in l[4:]]))
            os.unlink(log)
        except OSError: pass
        return o, L

    def explore(self, key, src, judge, d, malloc=False):
        """All schedules with up to d departures."""
        c = self.c
        src = src.replace('L.join()', "L.join(',')")
        with self.lk: self.n += 1; prog = '%s/p%s%d.jsi' % (c.scratch, 'a' if self.asan else '', self.n)
        open(prog, 'w').write(src)
        todo, cnt, seen = [()], 0, set()
        while todo and not c.stop:
            devs = todo.pop()
            more = len(devs) < d
            o, L = self.run(prog, devs, malloc, more)
            if o[0] == 'hang': o, L = self.run(prog, devs, malloc, more)
            cnt += 1
            rc, out, err = o
            line = out.strip().split('\n')[-1]
            if 'AddressSanitizer' in err: m = 'AddressSanitizer: ' + next((l for l in err.split('\n') if 'SUMMARY' in l or 'ERROR' in l), '')[:200]
            elif rc in CODES: m = CODES[rc]
            elif rc == 'hang': m = 'no end within 60 s'
            elif rc == 96: m = None          # A departure that is not possible.
            elif rc != 0: m = 'exit code %r %s' % (rc, err[-300:])
            else: m = judge(line)
            seen.add(line)
            if m:
                t = '// under LD_PRELOAD of checks/c/sched.c: SCHED=%s%s\n' % (','.join('%d:%d' % x for x in devs), ' SCHEDMALLOC=1' if malloc else '') + src
                # Once more, to be sure.
                o2, _ = self.run(prog, devs, malloc)
                if o2[:2] != o[:2] and rc != 'hang' and not self.asan: c.flaky += 1; continue
                with self.lk: c.report(Case('%s%s schedule %s' % (key, ' (allocations)' if malloc else '', devs), src, ''), out[-500:], m, t)
                break
            if len(devs) < d and rc != 96:
                last = devs[-1][0] if devs else -1
                todo += [devs + ((n, a),) for n, alts in L if n > last for a in alts]
            with self.lk: self.points += len(L)
        os.unlink(prog)
        with self.lk:
            c.outcomes.update(seen)
            c.cov['states'] += cnt; c.cov['traces_validated_against_impl'] += cnt
        return cnt


def lifejudge(f):
    def j(line):
        try: o = json.loads(line)
        except ValueError: return 'no result: ' + line[:100]
        return f(*o)
    return j


def main():
    c = Ctx('R03')
    if os.environ.get('R03MAX'): c.max_viol = int(os.environ['R03MAX'])
    T = c.thorough
    c.cov.update(states=0, transitions=0, traces_validated_against_impl=0)
    b = c.build('std')
    src = os.path.join(HERE, 'c/sched.c')
    so = c.cc(src, os.path.join(c.scratch, 'sched.so'), 'std', ['-shared', '-fPIC', '-DMALLOC', '-w', '-ldl'], lib=False)
    X = Explorer(c, b + '/jsish', so, False)
    ba = c.build('asan')
    soa = c.cc(src, os.path.join(c.scratch, 'scheda.so'), 'std', ['-shared', '-fPIC', '-w', '-ldl'], lib=False)
    lib = os.path.realpath(subprocess.run(['gcc', '-print-file-name=libasan.so'], stdout=subprocess.PIPE).stdout.decode().strip())
    A = Explorer(c, ba + '/jsish', lib + ':' + soa, True)
    jobs = []
    LONG = ('two threads', 'two threads, each to the parent', 'callbacks into the parent', 'a queue longer than one pass', 'results that change', 'from the start')
    for name, s, j in LIVES:
        jobs.append((X, name, s, lifejudge(j), 2 if T else 1, False))
        if T or name not in LONG: jobs.append((X, name, s, lifejudge(j), 1, True))
        jobs.append((A, name + ' (asan)', s, lifejudge(j), 1, False))
        if T: jobs.append((X, name, s, lifejudge(j), 3, False))
    DEEP = [('c', 'E'), ('e', 'w')]
    def add(E, ops, d, m=False): jobs.append((E, 'operations ' + ''.join(ops), program(ops), lambda l, o=ops: judge(o, l), d, m))
    al = 'ceETwukKC'
    for n in (1, 2, 3) + ((4,) if T else ()):
        for i, ops in enumerate(itertools.product(al, repeat=n)):
            if ops[-1] in 'uk' or any(x in 'KC' and 'k' not in ops[:j] for j, x in enumerate(ops)): continue
            if n == 1: add(X, ops, 3 if T else 2); (T or ops[0] in 'cE') and add(X, ops, 1, True)
            elif n == 2: add(X, ops, 2 if T or ops in DEEP else 1); T and add(X, ops, 1, True)
            elif n == 3: (T or i % 6 == 0) and add(X, ops, 1) or 'k' in ops and add(X, ops, 0)
            else: add(X, ops, 1)
            if T and n <= 2 or n == 2 and i % 6 == 0: add(A, ops, 1)
    # The longest first, so that all finish about together.
    jobs.sort(key=lambda t: -(t[4] * 2 + t[5] * 2 + (t[0] is A)))
    def work(t):
        n = t[0].explore(*t[1:])
        if os.environ.get('R03COUNT'): open(os.environ['R03COUNT'], 'a').write('%d %s %d %s %s\n' % (n, t[1], t[4], t[5], t[0] is A))
    with ThreadPoolExecutor(NCPU + 4) as ex: list(ex.map(work, jobs))
    c.cov['transitions'] = X.points + A.points
    c.cov['programs'] = len(jobs)
    c.cov['exhaustive'] = True
    c.assumptions += ['One thread runs at a time: what two do between two decisions (locks, sleeps, allocations) at once is not met', 'memory is taken to be sequentially consistent']
    c.finish()


if __name__ == '__main__':
    main()
