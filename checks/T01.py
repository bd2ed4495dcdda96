"""The test runner (jsish -t): its verdict on scripts, alone and in lists and directories, what update writes, the exit code."""
import itertools, os, re, shutil
from concurrent.futures import ThreadPoolExecutor
from mc.core import Ctx, Case, NCPU

# (statement, output or function of the state, kind)
STM = [('puts("a");', 'a\n'), ('printf("b");', 'b'), ('puts("c\\nd");', 'c\nd\n'), ('puts("");', '\n'),
       (';1+2;', '1+2 ==> 3\n'), (";'note';", "'note'\n"), (';"x"+"y";', '"x"+"y" ==> xy\n'), (';/a/.test("ba");', '/a/.test("ba") ==> true\n'),
       (';//throw "q";', 'throw "q" ==>\n[PASS]!: err = q\n'), (";//throw 'r';", "throw 'r' ==>\n[PASS]!: err = r\n"), (';//1+1;', '1+1 ==>\n[FAIL]!: expected a throw\n\n'),
       ('throw "z";', None), ('nosuch();', None), ('var s = ;', 'SYNTAX'),
       ('var G=5;', 'SET'), ('puts(typeof G);', 'GET'), ('String.prototype.zz=function() { return 7; };', ''), ('try { puts("s".zz()); } catch(e) { puts("no"); }', 'ZZ'),
       ('puts(console.args.join("|"));', 'ARGS'), ('puts(console.input());', 'IN'), ('// puts("no");', ''), ('puts("\u00e9\u4e2d\\ty\\rz");', '\u00e9\u4e2d\ty\rz\n'), ('puts("l".repeat(20000));', 'l' * 20000 + '\n')]


def model(seq, args='', inp=''):
    """Output of a script, None if it fails."""
    out, G, Z, lines = '', 0, 0, inp.split('\n')[:-1]
    if any(o == 'SYNTAX' for _, o in seq): return None
    for s, o in seq:
        if o is None: return None
        if o == 'SET': G = 1
        elif o == 'GET': out += 'number\n' if G else 'undefined\n'
        elif o == 'ZZ': out += '7\n' if Z else 'no\n'
        elif o == 'ARGS': out += args.replace(' ', '|') + '\n'
        elif o == 'IN': out += lines.pop(0) + '\n' if lines else 'undefined\n'
        else: out += o
        if 'zz=' in s: Z = 1
    return out


def text(seq, expect, args=None, inp=None, order='iae'):
    t = ''.join(s + '\n' for s, _ in seq)
    part = {'i': '=!INPUTSTART!=\n%s=!INPUTEND!=\n' % inp if inp is not None else '', 'a': '=!ARGSTART!=\n%s\n=!ARGEND!=\n' % args if args is not None else '',
            'e': '=!EXPECTSTART!=\n%s=!EXPECTEND!=\n' % expect if expect is not None else ''}
    p = ''.join(part[k] for k in order)
    return t + ('/*\n%s*/\n' % p if p else '')


def verdict(seq, t, expect, args='', inp=''):
    if expect is None and (t.startswith(';//') or '\n;//' in t): return 'FAIL'
    o = model(seq, args, inp)
    return 'FAIL' if o is None or expect is not None and o != expect else 'PASS'


def variants(o):
    if o is None: return ['', None, 'a\n']
    v = [o, None, '', o + 'x\n', o + '\n', o + 'x', 'x\n' + o, o + o]
    if o.endswith('\n'): v += [o[:-1]]
    if '\n' in o[:-1]: v += [o[:o[:-1].rfind('\n') + 1], o[o.find('\n') + 1:]]
    if o: v += [('y' if o[0] != 'y' else 'w') + o[1:], o[:-2] + '#' + o[-1]]
    r = []
    for x in v:
        if x not in r: r.append(x)
    return r


def seqs(n):
    # Two 'var G' make a warning in the output: left out.
    return (q for q in itertools.product(STM, repeat=n) if sum(o == 'SET' for _, o in q) < 2)


class Run:
    def __init__(self, key, files, opts=(), form='list', prep=None, code=None, after=None, n=None, want=None):
        self.key, self.files, self.opts, self.form, self.code, self.after, self.n, self.want = key, files, list(opts), form, code, after, n, want


def scripts(T):
    for n in (0, 1, 2) + ((3,) if T else ()):
        for seq in seqs(n):
            if n == 3 and len({s for s, _ in seq}) < 3: continue
            o = model(seq)
            vs = variants(o)
            if n == 3: vs = vs[:4]
            for e in vs: yield seq, e


def batches(it, n):
    it = iter(it)
    while 1:
        b = list(itertools.islice(it, n))
        if not b: return
        yield b


def verdicts(T):
    for k, b in enumerate(batches(scripts(T), 25)):
        fs = []
        for i, (seq, e) in enumerate(b):
            t = text(seq, e)
            fs.append(('f%02d.%s' % (i, 'js' if i % 3 else 'jsi'), t, verdict(seq, t, e)))
        yield Run('scripts %d' % k, fs, form='dir' if k % 4 == 3 else 'list')


def sections(T):
    A, I, O = [next(s for s in STM if s[1] == k) for k in ('ARGS', 'IN', 'a\n')]
    kinds = []
    for a in (None, 'x', 'y z'):
        for i in (None, 'in1\n', 'in2\nin3\n'):
            seq = ((A,) if a is None or a else ()) + ((I, I) if i else ()) + (O,)
            for ok in (1, 0):
                o = model(seq, a or '', i or '')
                kinds.append((seq, o if ok else 'n' + o, a, i))
    for n in (1, 2) + ((3,) if T else ()):
        for b in itertools.product(kinds, repeat=n):
            for order in (('iae', 'eai') if n == 1 else ('aie',)):
                fs = []
                for j, (seq, e, a, i) in enumerate(b):
                    t = text(seq, e, a, i, order)
                    fs.append(('s%d.jsi' % j, t, verdict(seq, t, e, a or '', i or '')))
                yield Run('sections %s %r' % (order, [(a, i, f[2]) for (q, e, a, i), f in zip(b, fs)]), fs)
                if n == 1: yield Run('sections with exec %s %r' % (order, [(a, i, f[2]) for (q, e, a, i), f in zip(b, fs)]), fs, ['-exec', 'true'])


def execs(T):
    for n in (1, 2):
        for seq in seqs(n):
            if n == 2 and not T and (STM.index(seq[0]) + STM.index(seq[1])) % 3: continue
            if any(o == 'IN' for _, o in seq): continue
            o = model(seq)
            fs = []
            for j, e in enumerate(variants(o)[:4 if n == 1 else 3]):
                t = text(seq, e)
                fs.append(('e%d.jsi' % j, t, verdict(seq, t, e)))
            yield Run('exec of %r' % ([s for s, _ in seq],), fs, ['-exec', 'true'])


def updates(T):
    def one(seq, e, force):
        o = model(seq)
        t = text(seq, e)
        if o is None: return t, 'FAIL', t
        if not force and '\n[FAIL]!:' in o: return t, 'REFUSED', t
        if e is None: return t, 'Created', t + '\n/*\n=!EXPECTSTART!=\n' + o + '=!EXPECTEND!=\n*/\n'
        return t, 'Updated' if o != e else 'Unchanged', text(seq, o)
    src = [(seq, e) for n in (1, 2) for seq in seqs(n) for e in variants(model(seq))[:3 if n == 2 else 9]]
    for force in (0, 1):
        for k, b in enumerate(batches(src, 25)):
            fs = []
            for i, (seq, e) in enumerate(b):
                t, v, after = one(seq, e, force)
                fs.append(('u%02d.jsi' % i, t, v, after))
            yield Run('update %d%s' % (k, ' with force' if force else ''), fs, ['-update', 'true'] + (['-force', 'true'] if force else []), after=1)


def counts(T):
    P, F, X = ('puts(1);\n/*\n=!EXPECTSTART!=\n1\n=!EXPECTEND!=\n*/\n', 'PASS'), ('puts(1);\n/*\n=!EXPECTSTART!=\n2\n=!EXPECTEND!=\n*/\n', 'FAIL'), ('throw 1;\n', 'FAIL')
    for n in range(1, 6 if T else 5):
        for b in itertools.product((P, F, X), repeat=n):
            for form in ('list', 'dir'):
                for fm in (0, 1, 2):
                    fs, bad = [], 0
                    for i, (t, v) in enumerate(b):
                        if fm and bad >= fm: v = None
                        elif v == 'FAIL': bad += 1
                        fs.append(('c%d.js' % i, t, v))
                    yield Run('%s of %s, failMax %d' % (form, ' '.join('PFX'[(P, F, X).index(x)] for x in b), fm), fs, ['-failMax', str(fm)] if fm else [], form)
    for nf, npass in itertools.product((126, 127, 128, 256) + ((255, 257, 511, 512, 768) if T else ()), (0, 1)):
        yield Run('%d failed tests and %d passed' % (nf, npass), [('c%03d.js' % i, F[0], 'FAIL') for i in range(nf)] + [('p%d.js' % i, P[0], 'PASS') for i in range(npass)], form='dir')
    for names in (('b.js', 'a.jsi', 'c.txt', 'd'), ('z.js', 'A.js', 'm.jsi', 'x.js.bak')):
        yield Run('directory of %s' % (names,), [(n, P[0] if n[0] in 'bzA' else F[0], ('PASS' if n[0] in 'bzA' else 'FAIL') if n.endswith(('.js', '.jsi')) else None) for n in names], form='dir')


class T01:
    def __init__(self):
        self.c = Ctx('T01')
        self.exe = os.path.join(self.c.build('std'), 'jsish')

    def do(self, r):
        c = self.c
        d = c.workdir('t')
        try:
            for f in r.files:
                p = os.path.join(d, 't', f[0])
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, 'w', newline='') as h: h.write(f[1])
                os.chmod(p, 0o666)
            os.chmod(os.path.join(d, 't'), 0o777)
            argv = [self.exe, '-t'] + r.opts + (['t'] if r.form == 'dir' else ['t/' + f[0] for f in r.files])
            rc, out, err = c.exec(argv, d, timeout=120)
            out = out.decode('utf8', 'replace')
            if rc is None: return 'no end'
            if rc < 0: return 'killed by signal %d' % -rc
            bad = 0
            if r.after:
                got = {}
                for m in re.finditer(r'\r(Created|Updated|Unchanged|\[FAIL\]) t/(\S+)', out): got[m.group(2)] = m.group(1).strip('[]')
                for f in r.files:
                    v = f[2]
                    g = got.get(f[0], 'REFUSED')
                    if v in ('FAIL', 'REFUSED'): bad += 1
                    if g != v: return '%s: said %s, not %s' % (f[0], g, v)
                    with open(os.path.join(d, 't', f[0]), newline='') as h: now = h.read()
                    if now != f[3]: return '%s: file is %r, not %r' % (f[0], now[-200:], f[3][-200:])
                if rc != bad: return 'exit code %d, not %d' % (rc, bad)
                again = [f for f in r.files if f[2] in ('Created', 'Updated', 'Unchanged')]
                if again:
                    rc, out, err = c.exec([self.exe, '-t'] + ['t/' + f[0] for f in again], d, timeout=120)
                    if rc: return 'after update %r fail' % re.findall(r'\[FAIL\]\S* (\S+)', out.decode('utf8', 'replace'))[:3]
                    rc, out, err = c.exec(argv[:2] + r.opts + ['t/' + f[0] for f in again], d, timeout=120)
                    if rc or out.count(b'\rUnchanged') != len(again): return 'a second update changed something'
                return None
            got, seen = {}, []
            for m in re.finditer(r'(?:\r|^)\[(PASS|FAIL)\](?:!:)? t/([^\s:]+)', out, re.M): got[m.group(2)] = m.group(1); seen.append(m.group(2))
            for f in r.files:
                if got.get(f[0]) != f[2]: return '%s: %s, not %s\n%s' % (f[0], got.get(f[0]), f[2], f[1][:600])
                bad += f[2] == 'FAIL'
            if rc != min(127, bad): return 'exit code %d, not %d' % (rc, min(127, bad))
            names = [f[0] for f in r.files if f[2]]
            if r.form == 'dir': names.sort()
            if seen != names: return 'ran %r, not %r' % (seen[:9], names[:9])
            ran = len(names)
            if ran > 1 and not re.search(r'(?m)^%d FAIL, %d PASS' % (bad, ran - bad), out): return 'summary is %r' % out[-80:]
            return None
        finally: shutil.rmtree(d, ignore_errors=True)

    def main(self):
        c, T = self.c, self.c.thorough
        fam = {}
        tot = 0
        with ThreadPoolExecutor(NCPU) as ex:
            for name, g in (('counts', counts), ('sections', sections), ('verdicts', verdicts), ('updates', updates), ('exec', execs)):
                rs = list(g(T))
                fam[name] = sum(len(r.files) for r in rs)
                for r, m in zip(rs, ex.map(lambda r: None if c.stop else self.do(r), rs)):
                    tot += 1
                    c.cov['transitions'] = c.cov.get('transitions', 0) + len(r.files)
                    if m and not c.stop:
                        m2 = self.do(r)
                        if not m2: c.flaky += 1; continue
                        c.report(Case(r.key, '', '', 1), m2, m2, ' '.join(['jsish -t'] + r.opts + [f[0] for f in r.files]) + '\n' + '\n---\n'.join(f[0] + ':\n' + f[1] for f in r.files if f[0] in m2 or len(r.files) < 6))
        c.cov['states'] = sum(fam.values())
        c.cov['traces_validated_against_impl'] = c.cov['transitions']
        c.cov['families'] = fam
        c.cov['exhaustive'] = True
        c.cov['samples'] = ['scripts of two statements with every near miss of their output', 'update of each']
        c.finish()


if __name__ == '__main__':
    T01().main()
