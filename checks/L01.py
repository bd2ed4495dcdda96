"""Control flow and exceptions: every small program over a statement grammar, against a
reference interpreter."""
import itertools
from mc.core import Ctx, Case

# ---- AST: tuples.  ('t',k) trace; ('if',c,A,B) c in 'T','F'; loops ('for'|'while'|'do'|'forin'|'forof', label, body) run twice;
# ('brk',label|None) ('cnt',label|None) ('thr',k) ('ret',k) ('try',A,catch|None,fin|None) ('sw',v,[(case|None,body)...]) ('blk',[..])


class Brk(Exception):
    def __init__(s, l): s.l = l
class Cnt(Exception):
    def __init__(s, l): s.l = l
class Thr(Exception):
    def __init__(s, v): s.v = v
class Ret(Exception):
    def __init__(s, v): s.v = v


class Ref:
    """Boring reference interpreter.  jsish rule: return leaves a function at once, without running
    enclosing finally blocks (tests/tryreturn.jsi)."""
    def __init__(self):
        self.out = []
        self.loop = 0

    def t(self, s):
        self.out.append(s)

    def seq(self, ss):
        for s in ss: self.st(s)

    def st(self, s):
        k = s[0]
        if k == 't': self.t('t%s' % s[1])
        elif k == 'thr': raise Thr(s[1])
        elif k == 'brk': raise Brk(s[1])
        elif k == 'cnt': raise Cnt(s[1])
        elif k == 'ret': raise Ret(s[1])
        elif k == 'if': self.seq(s[2] if s[1] == 'T' else s[3])
        elif k == 'blk': self.seq(s[1])
        elif k == 'var':  # condition true only on the i-th evaluation of the enclosing loop variable
            self.seq(s[2] if self.cur[-1] == s[1] else s[3])
        elif k in ('for', 'while', 'do', 'forin', 'forof'):
            lab = s[1]
            n = 0
            self.cur.append(0)
            try:
                for i in range(2):
                    self.cur[-1] = i
                    self.t('%s%d' % (k[0] if k in ('for', 'while', 'do') else k, i))
                    try:
                        self.seq(s[2])
                    except Cnt as e:
                        if e.l is not None and e.l != lab: raise
            except Brk as e:
                if e.l is not None and e.l != lab: raise
            finally:
                self.cur.pop()
        elif k == 'sw':
            try:
                hit = None
                for i, (c, b) in enumerate(s[2]):
                    if c == s[1]: hit = i; break
                if hit is None:
                    for i, (c, b) in enumerate(s[2]):
                        if c is None: hit = i; break
                if hit is not None:
                    for c, b in s[2][hit:]: self.seq(b)
            except Brk as e:
                if e.l is not None: raise
        elif k == 'try':
            self.tr(s)
        else:
            raise AssertionError(s)

    def tr(self, s):
        pend = None
        try:
            try:
                self.seq(s[1])
            except Thr as e:
                if s[2] is None: raise
                self.t('c%s' % e.v)
                self.seq(s[2])
        except (Brk, Cnt, Thr) as e:
            pend = e
        if s[3] is not None:
            self.t('f')
            self.seq(s[3])
        if pend is not None: raise pend

    def run(self, prog):
        self.cur = []
        try:
            self.seq(prog)
            self.t('end')
        except Thr as e:
            self.t('uncaught %s' % e.v)
        except Ret as e:
            self.t('ret %s' % e.v)
        return ' '.join(self.out)


class Emit:
    def __init__(self): self.n = 0

    def seq(self, ss): return ' '.join(self.st(s) for s in ss)

    def st(self, s):
        k = s[0]
        if k == 't': return "T('t%s');" % s[1]
        if k == 'thr': return "throw '%s';" % s[1]
        if k == 'brk': return 'break%s;' % (' ' + s[1] if s[1] else '')
        if k == 'cnt': return 'continue%s;' % (' ' + s[1] if s[1] else '')
        if k == 'ret': return "return '%s';" % s[1]
        if k == 'if': return 'if (%s) { %s }%s' % ('one==1' if s[1] == 'T' else 'one==2', self.seq(s[2]), ' else { %s }' % self.seq(s[3]) if s[3] else '')
        if k == 'blk': return '{ %s }' % self.seq(s[1])
        if k == 'var':
            return 'if (%s==%d) { %s }%s' % (self.vars[-1], s[1], self.seq(s[2]), ' else { %s }' % self.seq(s[3]) if s[3] else '')
        if k in ('for', 'while', 'do', 'forin', 'forof'):
            self.n += 1
            v = 'i%d' % self.n
            self.vars.append(v)
            body = self.seq(s[2])
            self.vars.pop()
            lab = s[1] + ': ' if s[1] else ''
            if k == 'for': return "%sfor (var %s=0; %s<2; %s++) { T('f'+%s); %s }" % (lab, v, v, v, v, body)
            if k == 'while': return "var %s=-1; %swhile (++%s<2) { T('w'+%s); %s }" % (v, lab, v, v, body)
            if k == 'do': return "var %s=-1; %sdo { %s++; T('d'+%s); %s } while (%s<1);" % (v, lab, v, v, body, v)
            if k == 'forin': return "%sfor (var %s in {0:1,1:1}) { T('forin'+%s); %s }" % (lab, v, v, body)
            return "%sfor (var %s of [0,1]) { T('forof'+%s); %s }" % (lab, v, v, body)
        if k == 'sw':
            return 'switch (one+%d) { %s }' % (s[1] - 1, ' '.join(('default: ' if c is None else 'case %d: ' % c) + self.seq(b) for c, b in s[2]))
        if k == 'try':
            r = 'try { %s }' % self.seq(s[1])
            if s[2] is not None: r += " catch(e) { T('c'+e); %s }" % self.seq(s[2])
            if s[3] is not None: r += " finally { T('f'); %s }" % self.seq(s[3])
            return r
        raise AssertionError(s)

    def run(self, prog):
        self.vars = []
        return self.seq(prog)


PROLOG = r'''
var TR = [];
function T(x) { TR.push(x); }
function R(f) { TR = []; try { var r = f(1); if (r!==undefined) TR.push('ret '+r); else TR.push('end'); } catch(e) { TR.push('uncaught '+e); } puts(TR.join(' ')); }
'''


def wrappers(depth):
    """(name, fn(hole_stmts, fresh)->stmt list, isloop, isfunc). Every construct with a hole."""
    w = []
    for k in ('for', 'while', 'do', 'forin', 'forof'):
        w.append((k, lambda h, l, k=k: [(k, l, [('t', 'a')] + h + [('t', 'b')])], True))
    w.append(('if', lambda h, l: [('if', 'T', h + [('t', 'y')], [])], False))
    w.append(('else', lambda h, l: [('if', 'F', [('t', 'n')], h)], False))
    w.append(('sw1', lambda h, l: [('sw', 1, [(1, h + [('t', 'p')]), (2, [('t', 'q')]), (None, [('t', 'r'), ('brk', None)])])], False))
    w.append(('swd', lambda h, l: [('sw', 3, [(1, [('t', 'p')]), (None, h + [('t', 'q')]), (2, [('t', 'r')])])], False))
    w.append(('tc', lambda h, l: [('try', h + [('t', 'g')], [('t', 'h')], None)], False))
    w.append(('tf', lambda h, l: [('try', h + [('t', 'g')], None, [('t', 'i')])], False))
    w.append(('tcf', lambda h, l: [('try', h + [('t', 'g')], [('t', 'h')], [('t', 'i')])], False))
    w.append(('c', lambda h, l: [('try', [('thr', 'x')], h + [('t', 'h')], None)], False))
    w.append(('cf', lambda h, l: [('try', [('thr', 'x')], h + [('t', 'h')], [('t', 'i')])], False))
    w.append(('fin', lambda h, l: [('try', [('t', 'g')], None, h + [('t', 'i')])], False))
    w.append(('cfin', lambda h, l: [('try', [('thr', 'x')], [('t', 'h')], h + [('t', 'i')])], False))
    return w


def build(chain, leaf):
    """chain: wrapper indices, outermost first."""
    body = leaf
    for name, fn, lab in reversed(chain):
        body = [('t', '<')] + fn(body, lab) + [('t', '>')]
    return body


def programs(depth, W, leaves_full=True):
    for chain in itertools.product(W, repeat=depth):
        labs = []
        ch = []
        for i, (name, fn, isloop) in enumerate(chain):
            lab = 'L%d' % i if isloop else None
            if lab: labs.append(lab)
            ch.append((name, fn, lab))
        names = [c[0] for c in ch]
        # contexts allowing break / continue
        loops = len(labs)
        canbrk = loops or any(n.startswith('sw') for n in names)
        leaves = [[('t', 'z')], [('thr', 'k')], [('ret', 'v')]]
        if canbrk: leaves.append([('brk', None)])
        if loops:
            leaves.append([('cnt', None)])
            leaves.append([('var', 0, [('cnt', None)], [('thr', 'k')])])
            leaves.append([('var', 1, [('brk', None)], [('t', 'z')])])
        for l in labs:
            leaves.append([('brk', l)])
            leaves.append([('cnt', l)])
        for lf in leaves:
            yield ('%s: %s' % ('>'.join(names), lf), build(ch, lf))


def combos():
    """try/catch/finally with an action in every part, in one or two loops, nested twice."""
    acts = [('t', '1'), ('thr', 'm'), ('ret', 'n'), ('brk', None), ('cnt', None), ('brk', 'L0'), ('cnt', 'L0')]
    for k0, k1 in (('for', None), ('while', 'for'), ('forin', 'do'), ('do', 'while')):
        for a in acts:
            for b in acts + [None]:
                for f in acts + [None]:
                    if b is None and f is None: continue
                    t = ('try', [('t', '0'), a, ('t', '2')], None if b is None else [b, ('t', '3')], None if f is None else [f, ('t', '4')])
                    inner = [t, ('t', '5')]
                    if k1: inner = [(k1, None, inner), ('t', '6')]
                    yield ('%s %s try %s catch %s finally %s' % (k0, k1, a, b, f), [(k0, 'L0', inner), ('t', '7')])
                    # the same inside an outer try
                    yield ('try{%s %s try %s catch %s finally %s}' % (k0, k1, a, b, f),
                           [('try', [(k0, 'L0', inner), ('t', '7')], [('t', '8')], [('t', '9')]), ('t', 'A')])


def seqs():
    """two constructs one after the other: no state may leak from the first to the second"""
    simple = [[('try', [('thr', 'x')], [('t', 'h')], None)], [('try', [('t', 'g')], None, [('t', 'i')])],
              [('for', 'L0', [('try', [('brk', None)], None, [('t', 'i')])])],
              [('for', 'L0', [('try', [('cnt', None)], [('t', 'h')], [('t', 'i')])])],
              [('sw', 1, [(1, [('t', 'p'), ('brk', None)]), (None, [('t', 'q')])])],
              [('sw', 5, [(1, [('t', 'p')]), (None, [('t', 'q')])])],
              [('while', 'L1', [('for', 'L2', [('cnt', 'L1')])])],
              [('try', [('try', [('thr', 'x')], [('thr', 'y')], [('t', 'i')])], [('t', 'h')], None)],
              [('try', [('for', 'L3', [('thr', 'x')])], [('t', 'h')], [('t', 'i')])]]
    for a in simple:
        for b in simple:
            for d in simple:
                yield (str((a, b, d)), a + [('t', '|')] + b + [('t', '|')] + d)


def main():
    c = Ctx('L01')
    W = wrappers(0)
    seen = set()

    def cases():
        g = [programs(1, W), programs(2, W), combos(), seqs(), programs(3, W)]
        if c.thorough: g.append(programs(4, W))
        for gen in g:
            for key, prog in gen:
                try:
                    exp = Ref().run(prog)
                except (Brk, Cnt):
                    continue
                seen.add(exp)
                src = Emit().run(prog)
                # fp: a function body; the second copy runs the function twice (no state kept between calls)
                yield Case(src, 'var f=function(one) { %s };\nR(f); R(f);' % src, exp + '\n' + exp, exp.count(' ') + 1)

    c.run_cases(cases(), 400, PROLOG)
    c.cov['states'] = len(seen)
    c.cov['depth'] = 4 if c.thorough else 3
    c.finish()


if __name__ == '__main__':
    main()
