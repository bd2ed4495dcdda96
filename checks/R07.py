"""Signals: every history of handle, ignore, reset, callback, kill and update up to a depth, with several signals,
callbacks that send signals, change handling or raise, and every spelling of every signal's name."""
import itertools, os, signal
from concurrent.futures import ThreadPoolExecutor
from mc.core import Ctx, Case, VERIF

PROLOG = r'''
var P = Util.getpid(), L, C = {};
function ls(a) { var o = []; for (var i=0; i<a.length; i++) { if (a[i] != 'unknown signal') o.push(a[i]); } return o.sort().join(','); }
function K(s) { Signal.kill(P, s); }
function done() { for (var k in C) { try { clearInterval(C[k]); } catch(e) {} } C = {};
  Signal.handle('USR1','USR2','TERM');  Signal.callback(function() {}, 'USR1'); Signal.callback(function() {}, 'USR2'); Signal.callback(function() {}, 'TERM'); update();
  var a = Event.names(); for (var i=0; i<a.length; i++) clearInterval(a[i]);
  Signal.reset('USR1','USR2','TERM'); puts(L.join(' ')); }
'''
NUM = {'USR1': 10, 'USR2': 12, 'TERM': 15}


class Sim:
    def __init__(self, ch):
        self.m = {s: 'D' for s in NUM}; self.pend = set(); self.cb = {}; self.log = []; self.dead = False
        self.ch = ch; self.pos = 0; self.trail = []; self.steps = 0

    def choose(self, n):
        if n <= 1: return 0
        c = self.ch[self.pos] if self.pos < len(self.ch) else 0
        self.pos += 1; self.trail.append((c, n))
        return c

    def do(self, op):
        self.steps += 1
        k = op[0]
        if k == 'handle': self.m[op[1]] = 'H'
        elif k == 'ignore': self.m[op[1]] = 'I'
        elif k == 'reset': self.m[op[1]] = 'D'
        elif k == 'cb':
            self.m[op[1]] = 'H'
            self.cb.setdefault(op[1], {'act': op[2], 'busy': False})      # a new registration is a new object
        elif k == 'uncb':
            if self.cb.pop(op[1], None) is None: self.log.append('none')
        elif k == 'kill':
            if self.m[op[1]] == 'D': self.dead = True
            elif self.m[op[1]] == 'H': self.pend.add(op[1])
        elif k == 'ls':
            self.log.append('H:%s' % ','.join(sorted('SIG' + s for s in NUM if self.m[s] == 'H')))
            self.log.append('I:%s' % ','.join(sorted('SIG' + s for s in NUM if self.m[s] == 'I')))
        elif k == 'up':
            ids = list(self.cb.items())
            while ids:
                i, e = ids.pop(self.choose(len(ids)))
                if self.cb.get(i) is not e or e['busy'] or i not in self.pend: continue
                self.pend.discard(i)
                e['busy'] = True
                self.log.append('*' + i)
                try:
                    for a in e['act']:
                        if a[0] == 'throw': raise KeyError
                        self.do(a)
                except KeyError: pass
                e['busy'] = False


def jsop(op):
    k = op[0]
    if k in ('handle', 'ignore', 'reset'): return "Signal.%s('%s');" % (k, op[1])
    if k == 'cb': return "if (C.%s===undefined) C.%s=Signal.callback(function() { L.push('*%s'); %s }, '%s'); else Signal.handle('%s');" % (op[1], op[1], op[1], ' '.join(map(jsop, op[2])), op[1], op[1])
    if k == 'uncb': return "if (C.%s!==undefined) { clearInterval(C.%s); delete C.%s; } else L.push('none');" % (op[1], op[1], op[1])
    if k == 'kill': return "K('%s');" % op[1]
    if k == 'ls': return "L.push('H:'+ls(Signal.handle())); L.push('I:'+ls(Signal.ignore()));"
    if k == 'up': return 'update();'
    if k == 'throw': return "throw 'boo';"


def outcomes(prog):
    res, todo, st, runs = set(), [[]], 0, 0
    while todo:
        ch = todo.pop(); s = Sim(ch); runs += 1
        if runs > 300: return None, 0
        for op in prog:
            s.do(op)
            if s.dead: return None, 0       # the signal's default action would end the process
        res.add(' '.join(s.log)); st += s.steps
        for j in range(len(ch), len(s.trail)):
            c, n = s.trail[j]
            for k in range(1, n): todo.append([x for x, _ in s.trail[:j]] + [k])
    return res, st


def mk(prog):
    exp, st = outcomes(prog)
    if exp is None: return None
    def chk(got, exp=exp):
        if got.strip('\n') in exp: return None
        return 'got %r, possible are %s' % (got.strip('\n'), sorted(exp)[:5])
    return Case(str(prog), 'L = [];\n%s\ndone();' % '\n'.join(map(jsop, prog)), chk, n=st)


def histories(T):
    ops = [('handle', 'USR1'), ('ignore', 'USR1'), ('reset', 'USR1'), ('cb', 'USR1', ()), ('uncb', 'USR1'), ('kill', 'USR1'), ('up',),
           ('handle', 'USR2'), ('ignore', 'USR2'), ('cb', 'USR2', ()), ('kill', 'USR2')]
    L = ('ls',), ('up',), ('ls',)
    for n in range(1, 7 if T else 6):
        al = ops if n < (6 if T else 5) else ops[:7]
        for p in itertools.product(al, repeat=n):
            c = mk(list(p) + list(L))
            if c: yield c
    # what a callback does while the signals are delivered
    K1, K2, K3 = ('kill', 'USR1'), ('kill', 'USR2'), ('kill', 'TERM')
    acts = [(), (K1,), (K2,), (K2, ('up',)), (K1, ('up',)), (('ignore', 'USR2'),), (('ignore', 'USR2'), K2), (('uncb', 'USR2'),), (('uncb', 'USR1'),), (('uncb', 'USR1'), K1, ('up',)),
            (('throw',),), (K1, ('throw',)), (K2, K1, ('up',), ('throw',)), (('cb', 'TERM', ()), K3), (('cb', 'TERM', ()), K3, ('up',)), (('ls',),), (('uncb', 'USR1'), ('cb', 'USR1', ()), K1)]
    sw = lambda a: tuple((o[0],) + (({'USR1': 'USR2', 'USR2': 'USR1'}.get(o[1], o[1]),) + tuple(o[2:]) if len(o) > 1 else ()) for o in a)
    for a in acts:
        for b in acts:
            for tail in ([K1, ('up',)], [K1, K2, ('up',)], [K1, K2, ('up',), ('up',)], [K2, ('up',), K1, ('up',), K2, ('up',)], [K1, K1, ('up',), ('ls',), ('up',), ('up',)]):
                c = mk([('cb', 'USR1', a), ('cb', 'USR2', sw(b))] + tail + [('ls',), ('up',)])
                if c: yield c


def names():
    skip = {'KILL', 'STOP'}
    ok = {}
    for s in signal.Signals:
        n = s.name[3:]
        if n.startswith('RT') or n in ('STKFLT', 'CHLD', 'POLL'): continue
        ok[n] = int(s)
    ok['CLD'] = 17
    for n, i in ok.items():
        forms = [n, n.lower(), 'SIG' + n, 'sig' + n.lower(), '-' + n, '-SIG' + n, '-sig' + n, n.capitalize(), str(i), '-%d' % i, 'SIG%d' % i]
        for f in forms + [i]:
            js = repr(f) if isinstance(f, str) else str(f)
            if n in skip:
                yield Case('ignore(%s)' % js, "try { Signal.ignore(%s); puts('ok'); } catch(e) { puts('E'); } puts(ls(Signal.ignore()));" % js, 'E\n\n'.rstrip('\n') + '\n')
                yield Case('callback(%s)' % js, "try { Signal.callback(function() {}, %s); puts('ok'); } catch(e) { puts('E'); } puts(ls(Signal.handle())+Event.names().length);" % js, 'E\n0')
                continue
            if n in ('SEGV', 'FPE', 'ILL', 'BUS'): continue
            yield Case('signal %s' % js, "Signal.ignore(%s); puts(ls(Signal.ignore())); K(%s); Signal.handle(%s); puts(ls(Signal.ignore())); puts(ls(Signal.handle()));\n"
                       "var n=0, id=Signal.callback(function() { n++; }, %s); update(); K(%s); puts(n); update(); update(); puts(n); puts(Event.info(id).sigNum); clearInterval(id); Signal.reset(%s); puts(ls(Signal.handle()));" % ((js,) * 6),
                       'SIG%s\n\nSIG%s\n0\n1\n%d\n' % (n, n, i), n=9)
    for bad in ("''", "'SIG'", "'-'", "'USR'", "'USR11'", "'USR1 '", "'nown signal'", "'unknown signal'", "'64'", "'0'", "'-0'", "'99'", "'1000000000000'", "'XUSR1'", "'SIGSIGUSR1'", "64", "100", "1000000"):
        for f in ('Signal.handle(%s)', 'Signal.ignore(%s)', 'Signal.reset(%s)', 'Signal.callback(function() {}, %s)', 'K(%s)'):
            if f[0] == 'K' and bad == "'0'": continue
            yield Case(f % bad, "var r='accepted'; try { %s; } catch(e) { r='raised'; } puts(r); puts(ls(Signal.handle())+ls(Signal.ignore())+Event.names().length);" % (f % bad), 'raised\n0')


def deaths(c, T):
    """histories after which the signal has its default action again: the process must end by it"""
    ops = [('handle', 'USR1'), ('ignore', 'USR1'), ('reset', 'USR1'), ('cb', 'USR1', ()), ('uncb', 'USR1')] + ([('kill', 'USR1'), ('up',)] if T else [])
    progs = []
    for n in range(0, 6 if T else 5):
        for p in itertools.product(ops, repeat=n):
            s = Sim([])
            for op in p: s.do(op)
            if s.m['USR1'] == 'D' and not s.dead: progs.append(p)
    def one(p):
        if c.stop: return
        src = PROLOG + 'L = [];\n%s\nputs("before"); K("USR1"); for (var i=0; i<1000; i++) update(); puts("alive");\n' % '\n'.join(map(jsop, p))
        for k in range(2):
            rc, out, err = c.js(src)
            if rc == -10: break
        else:
            c.report(Case('%s then kill' % (p,), src, ''), '', 'the process did not end by SIGUSR1 (rc %s)' % rc, src)
        with c.lock:
            c.cov['traces_validated_against_impl'] += 1
            c.cov['transitions'] += len(p) + 1
    with ThreadPoolExecutor(8) as ex: list(ex.map(one, progs))
    return len(progs)


def main():
    c = Ctx('R07')
    T = c.thorough
    n = c.run_cases(names(), batch=60, prolog=PROLOG)
    n += c.run_cases(histories(T), batch=400, prolog=PROLOG)
    if not c.stop: n += deaths(c, T)
    if not c.stop:
        exe = c.cc([os.path.join(VERIF, 'checks/c/sigstep.c'), os.path.join(VERIF, 'checks/c/vclock.c')], os.path.join(c.scratch, 'sigstep'))
        os.chmod(exe, 0o755)
        c.harness(exe, [(i, 8, s) for s in (0, 1, 2) for i in range(8)], 'checks/c/sigstep.c', timeout=200)
    c.cov['states'] += n
    c.cov['bounds'] = 'all histories to length %d over 11 operations on two signals and to length %d over 7 on one, that do not end the process; 17 x 17 callback bodies x 5 deliveries; 12 spellings of every signal; 19 texts that are none; all histories to length %d after which the signal must end the process; a second signal before every instruction of a pass that takes the first, in three programs' % ((5, 6, 5) if T else (4, 5, 4))
    c.finish()


if __name__ == '__main__':
    main()
