"""Modules: histories of require, provide, source and import in fresh interpreters over a set of packages that depend on each
other, fail, or are found in several places, against a model of what is loaded; version texts and numbers; argument lists of
moduleRun and of the command line, and option objects of parseOpts, against a model of the option parser."""
import itertools, json, os
from mc.core import Ctx, Case, NOBODY

MAXDEPTH = 50
# What each file does: log, require (name, version), provide (name, version), throw, source, value (what import returns).
FILES = {
    'P/A.jsi': [('log', 'A'), ('prov', 'A', '1.2.0')],
    'P2/A.jsi': [('log', 'A9'), ('prov', 'A', '9')],
    'P/B.jsi': [('log', 'B'), ('req', 'A', '1.1'), ('prov', 'B', '2'), ('log', 'B2')],
    'P/Bx.jsi': [('log', 'Bx'), ('req', 'A', '1.2.1'), ('prov', 'Bx', '2')],
    'P/C.jsi': [('log', 'C'), ('prov', 'C', '1'), ('req', 'D', None), ('log', 'C2')],
    'P/D.jsi': [('log', 'D'), ('req', 'C', None), ('prov', 'D', '0.1')],
    'P/X.jsi': [('log', 'X'), ('req', 'Y', None), ('prov', 'X', '1')],
    'P/Y.jsi': [('log', 'Y'), ('req', 'X', None), ('prov', 'Y', '1')],
    'P/E.jsi': [('log', 'E')],
    'P/F.jsi': [('log', 'F'), ('throw',), ('prov', 'F', '1')],
    'P2/F.jsi': [('log', 'F9'), ('prov', 'F', '1')],
    'P/G/G.jsi': [('log', 'G'), ('prov', 'G', '99.99.99'), ('src', 'sub/g.jsi')],
    'P/G/sub/g.jsi': [('log', 'g'), ('src', '../../../s/v.jsi')],
    'P2/Z.jsi': [('log', 'Z'), ('req', 'B', '2'), ('prov', 'Z', '0.0.1')],
    'P/W.jsi': [('log', 'W'), ('prov', 'W', '1'), ('prov', 'V', '3')],
    'P/T.jsi': [('log', 'T'), ('try', [('req', 'Bx', None)]), ('req', 'A', '1.2'), ('prov', 'T', '1')],
    's/A.jsi': [('log', 'sA'), ('prov', 'A', '3')],
    's/n.jsi': [('log', 'n'), ('src', 't/u.jsi'), ('log', 'n2')],
    's/t/u.jsi': [('log', 'u'), ('src', '../v.jsi')],
    's/v.jsi': [('log', 'v')],
    's/bad.jsi': [('log', 'bad'), ('src', 't/bad2.jsi'), ('log', 'never')],
    's/t/bad2.jsi': [('log', 'bad2'), ('throw',)],
    's/imp.jsi': [('log', 'imp'), ('value', 7)],
    's/loop.jsi': [('log', 'l'), ('src', 'loop.jsi')],
}
DIRS = ['P', 'P2']


def text(acts):
    o = []
    for a in acts:
        if a[0] == 'log': o.append('L("%s"+(Info.isMain()?"!":"")+":"+File.tail(Info.scriptDir()));' % a[1])
        elif a[0] == 'req': o.append('require("%s"%s);' % (a[1], '' if a[2] is None else ',"%s"' % a[2]))
        elif a[0] == 'prov': o.append('provide("%s","%s");' % (a[1], a[2]))
        elif a[0] == 'throw': o.append('throw("bang");')
        elif a[0] == 'src': o.append('source("%s");' % a[1])
        elif a[0] == 'try': o.append('try { %s } catch(e) { L("caught:"); };' % text(a[1]))
        elif a[0] == 'value': o.append('return %d;' % a[1])
    return ' '.join(o)


def vn(v):
    """A version as an integer: major, minor and patch take two digits each."""
    if isinstance(v, str):
        p = ([int(x) for x in v.split('.')] + [0, 0])[:3]
        return p[0] * 10000 + p[1] * 100 + p[2]
    return int(v * 10000 + 0.5)


class Err(Exception): pass


class Model:
    def __init__(self):
        self.pk, self.src, self.log, self.depth, self.inc = {}, set(), [], 0, 0

    def run(self, f):
        self.src.add(f)
        for a in FILES[f]: self.act(a, f)

    def act(self, a, f):
        if a[0] == 'log': self.log.append(a[1] + ':' + os.path.basename(os.path.dirname(f)))
        elif a[0] == 'req': self.req(a[1], a[2])
        elif a[0] == 'prov': self.prov(a[1], a[2], f)
        elif a[0] == 'throw': raise Err()
        elif a[0] == 'src': self.source(os.path.normpath(os.path.join(os.path.dirname(f), a[1])))
        elif a[0] == 'try':
            try:
                for b in a[1]: self.act(b, f)
            except Err: self.log.append('caught:')

    def prov(self, n, v, f):
        if n in self.pk:
            if self.pk[n][1] != f or f is None: raise Err()
            return
        self.pk[n] = (vn(v), f)

    def req(self, n, v=None):
        if n not in self.pk:
            if self.depth > MAXDEPTH: raise Err()
            self.depth += 1
            try:
                for d in DIRS:
                    g = [x for x in (d + '/' + n + '.jsi', d + '/' + n + '/' + n + '.jsi') if x in FILES]
                    if g:
                        self.run(g[0])
                        if n not in self.pk: raise Err()
                        break
                else: raise Err()
            finally: self.depth -= 1
        if v is not None and self.pk[n][0] < vn(v): raise Err()
        return self.pk[n][0]

    def source(self, f, once=False, exists=False):
        if f not in FILES:
            if exists: return
            raise Err()
        if once and f in self.src: return
        if self.inc + 1 > MAXDEPTH: raise Err()
        self.inc += 1
        try: self.run(f)
        finally: self.inc -= 1


def num(n):
    s = '%.4f' % (n / 10000.0)
    return s.rstrip('0').rstrip('.')


def do(m, op):
    m.log = []
    try:
        k = op[0]
        if k == 'req': r = num(m.req(op[1]))
        elif k == 'reqv': r = num(m.req(op[1], op[2]))
        elif k == 'prov':
            m.prov(op[1], op[2], None)
            r = 'U'
        elif k == 'pkg': r = num(m.pk[op[1]][0]) + ' ' + (m.pk[op[1]][1] or '') if op[1] in m.pk else 'null'
        elif k == 'names': r = ','.join(sorted(m.pk))
        elif k == 'src':
            m.source(op[1], **op[2])
            r = 'U'
        elif k == 'srcs':
            for f in op[1]: m.source(f)
            r = 'U'
        elif k == 'imp':
            m.source(op[1])
            r = '7'
        elif k == 'files': r = ','.join(sorted(m.src))
    except Err: r = '!'
    return r + '<' + ' '.join(m.log) + '>'


def js(op):
    k = op[0]
    if k == 'req': return 'require("%s")' % op[1]
    if k == 'reqv': return 'require("%s",%s).version' % (op[1], json.dumps(op[2]))
    if k == 'prov': return 'provide("%s",%s)' % (op[1], json.dumps(op[2]))
    if k == 'pkg': return 'PI("%s")' % op[1]
    if k == 'names': return 'NM()'
    if k == 'src': return 'source("%s"%s)' % (op[1], (',' + json.dumps(op[2])) if op[2] else '')
    if k == 'srcs': return 'source(%s)' % json.dumps(op[1])
    if k == 'imp': return '""+import("%s")' % op[1]
    if k == 'files': return 'FL()'


OPS = [('req', 'A'), ('reqv', 'A', '1.2'), ('reqv', 'A', 1.0201), ('reqv', 'A', '3'), ('req', 'B'), ('req', 'Bx'), ('req', 'C'), ('req', 'D'), ('req', 'X'), ('req', 'E'), ('req', 'F'), ('req', 'G'), ('reqv', 'Z', 0.0001),
       ('req', 'Q'), ('req', 'V'), ('req', 'W'), ('req', 'T'), ('prov', 'A', 2), ('prov', 'Q', '1.0.1'), ('pkg', 'A'), ('pkg', 'B'), ('names',), ('src', 's/A.jsi', {}), ('src', 's/A.jsi', {'once': True}), ('src', 'P/A.jsi', {}),
       ('src', 's/n.jsi', {}), ('src', 's/n.jsi', {'once': True}), ('src', 's/bad.jsi', {}), ('src', 's/nope.jsi', {}), ('src', 's/nope.jsi', {'exists': True}), ('srcs', ['s/v.jsi', 's/t/u.jsi']), ('srcs', ['s/v.jsi', 's/bad.jsi', 's/v.jsi']),
       ('imp', 's/imp.jsi'), ('src', 's/loop.jsi', {}), ('files',)]

HPRO = r'''var FILES=%s, LOG=[];
File.mkdir('w'); File.chdir('w');
for (var k of Object.keys(FILES)) { File.mkdir(File.dirname(k), true); File.write(k, FILES[k]); }
function lg(s:string) { LOG.push(s); }
var ISET = 'function PI(n:string) { var i=Info.package(n); return i===null?"null":i.version+" "+i.loadFile.split(WD).join(""); } function NM() { var o=[]; for (var n of require()) if (BUILT.indexOf(n)<0) o.push(n); return o.sort().join(","); } function FL() { var o=[]; for (var n of Info.files()) o.push(n.split(WD).join("")); return o.sort().join(","); }';
function H(hs:array) { for (var ops of hs) {
  var i = new Interp({pkgDirs:['P','P2']}), o=[];
  i.alias('L', lg, null);
  i.eval('var WD='+JSON.stringify(File.pwd()+'/')+', BUILT=require(), r=1;'+ISET);
  for (var p of ops) { var r='?'; LOG=[];
    try { i.eval('r="U"; try { r='+p+'; if (typeof r=="undefined") r="U"; } catch(e) { r="!"; };'); r=i.eval('""+r'); } catch(e) { r='!!'; }
    o.push(r+'<'+LOG.join(' ')+'>'); }
  puts(o.join(' ; '));
} }
''' % json.dumps({k: text(v) for k, v in FILES.items()})


def histories(deep):
    def hs():
        for op in OPS: yield (op,)
        for h in itertools.product(OPS, repeat=2): yield h
        few = [o for o in OPS if o[0] in ('req', 'reqv', 'src', 'prov') and o != ('req', 'X') and o[1] != 's/loop.jsi']
        for h in itertools.product(OPS if deep else few[::2], repeat=3): yield h
    g = []
    for h in hs():
        g.append(h)
        if len(g) == 40:
            yield hcase(g)
            g = []
    if g: yield hcase(g)


def hcase(g):
    exp = []
    for h in g:
        m = Model()
        exp.append(' ; '.join(do(m, op) for op in h))
    return Case('histories ' + ' '.join(js(o) for o in g[0]), 'H(%s);' % json.dumps([[js(o) for o in h] for h in g]), '\n'.join(exp), n=len(g))


# ------------------------------------------------------------------ versions
def vstr(n): return '%d.%d.%d' % (n // 10000, n // 100 % 100, n % 100)


VPRO = 'function VC(xs:array) { for (var x of xs) { var r; try { r=Util.verConvert.apply(null,x); } catch(e) { r="!"; }; puts(r===null?"null":r); } }\n'


def versions(deep):
    cs = ['0', '1', '2', '9', '10', '11', '50', '90', '99', '00', '01', '09']
    more = ['100', '256', '999', '4294967296', '4294967297', '99999999999999999999', '']
    xs = []
    for d in (1, 2, 3):
        for t in itertools.product(cs, repeat=d): xs.append((['.'.join(t)], num(vn('.'.join(t)))))
    for a in more[:-1]:
        for t in ([a], [a, '1'], ['1', a], ['1', a, '1'], ['1', '1', a]): xs.append((['.'.join(t)], 'null'))
    for b in ['', 'a', '1.a', '1.2.x', '-1', '1,2', ' 1', '1 ', '1.2-', 'v1', '.', '.5', '+1', '1e1', '0x1']: xs.append(([b], 'null'))
    ns = sorted(set(list(range(0, 130)) + [a * 10000 + b * 100 + c for a in (0, 1, 9, 10, 50, 99) for b in (0, 1, 9, 10, 20, 99) for c in (0, 1, 9, 10, 30, 99)] + (list(range(0, 30000)) if deep else list(range(0, 30000, 17)))))
    for n in ns:
        xs.append(([n / 10000.0], vstr(n)))
        xs.append(([vstr(n)], num(n)))
        for t in (0, 1, 2):
            s = vstr(n)
            for _ in range(t):
                if s.endswith('.0'): s = s[:-2]
            xs.append(([n / 10000.0, t], s))
    for v in (-1, -0.0001, 100, 1000, 429496.7296, 1e9, 1e300): xs.append(([v], 'null'))
    for t in (-1, 3): xs.append(([1, t], '!'))
    for i in range(0, len(xs), 200):
        g = xs[i:i + 200]
        yield Case('versions %s ...' % g[0][0], 'VC(%s);' % json.dumps([x[0] for x in g]), '\n'.join(x[1] for x in g), n=len(g))


# ------------------------------------------------------------------ arguments and options
MOD = '''function M(args, conf) {
  var options = { f:false, n:1, s:"x", u:undefined, z:null, "long-one":"d", o:{q:1} };
  var self = {k:9, s:"kept"};
  %s;
  return JSON.stringify(args)+'|'+JSON.stringify(self)+'|'+JSON.stringify(conf);
}
'''
APRO = MOD.replace('function M', 'function M1') % 'parseOpts(self, options, conf)' + MOD.replace('function M', 'function M2') % 'self = moduleOpts(options, self, conf)' + MOD.replace('function M', 'function M3') % 'self = getOpts(options, conf, self)' + r'''
provide('M', 1);
function RUN(xs:array) { for (var x of xs) { var o=[]; for (var f of [M1, M2, M3]) { var r; try { r=f.apply(null, PA(x)); } catch(e) { r='!'; } o.push(r); }
   puts(o[0]===o[1] && o[1]===o[2] ? o[0] : o.join(' # ')); } }
function PA(x:array) { return x; }
function CO(xs:array) { for (var x of xs) { var o=[]; for (var f of [M1, M2, M3]) { var r; try { r=f([], x).split('|')[1]; } catch(e) { r='!'; } o.push(r); } puts(o[0]===o[1] && o[1]===o[2] ? o[0] : o.join(' # ')); } }
'''
DEFAULTS = {'f': False, 'n': 1, 's': 'kept', 'z': None, 'long-one': 'd', 'o': {'q': 1}, 'k': 9}
KINDS = {'f': 'bool', 'n': 'num', 's': 'str', 'u': 'any', 'z': 'any', 'long-one': 'str', 'o': 'any'}


def jsj(v):
    """JSON text as JSON.stringify writes it: with spaces, keys in order."""
    if isinstance(v, dict): return '{ ' + ', '.join('%s:%s' % (json.dumps(k), jsj(v[k])) for k in sorted(v)) + ' }' if v else '{}'
    if isinstance(v, list): return '[ ' + ', '.join(jsj(x) for x in v) + ' ]' if v else '[]'
    if isinstance(v, float) and v == int(v): return str(int(v))
    return json.dumps(v)


def conv(t):
    if t.lower() in ('true', 'false'): return t.lower() == 'true'
    if t == 'null': return None
    try:
        if t and t == t.strip(): return int(t, 16) if t.startswith('0x') else float(t)
    except ValueError: pass
    return t


def kind(v): return 'bool' if isinstance(v, bool) else 'num' if isinstance(v, (int, float)) else 'str' if isinstance(v, str) else 'any'


def apply(conf):
    """The object that the options make of the defaults, or None for an error."""
    out = dict(DEFAULTS)
    for k, v in conf.items():
        if k not in KINDS: return None
        t = KINDS[k]
        if t == 'bool' and kind(v) == 'num' and v in (0, 1): v = v == 1
        if t != 'any' and kind(v) != t: return None
        out[k] = v
    return out


def parse(argv):
    """(args, conf) or None: options are pairs from the start; -- ends them."""
    conf, i = {}, 0
    while i < len(argv):
        if argv[i][:1] != '-': break
        if argv[i] == '--':
            i += 1
            break
        if i + 1 >= len(argv): return None
        conf[argv[i][1:]] = conv(argv[i + 1])
        i += 2
    return argv[i:], conf


def run(argv):
    p = parse(argv)
    if not p: return '!'
    s = apply(p[1])
    return '!' if s is None else jsj(p[0]) + '|' + jsj(s) + '|' + jsj(p[1])


TOK = ['-f', '--f', '-n', '-s', '-u', '-z', '-long-one', '-bad', '--', 'true', 'False', '1', '0', '-5', '1e3', '0x1f', 'null', 'abc', '', 'a b', '5x', 'undefined', '-o']


def lists(deep):
    few = ['-f', '-n', '-s', '--n', '--', 'true', '1', '-5', 'abc', '', '-bad']
    for d in range(0, 4 if deep else 3):
        for t in itertools.product(TOK, repeat=d): yield list(t)
    for d in ((4, 5) if deep else (3, 4)):
        for t in itertools.product(few if d < 5 else few[:7], repeat=d): yield list(t)
    for t in itertools.product(few[:6], ['true', '1', 'abc', '-5'], few[:6], ['true', '1', 'abc'], few[:6] + ['x'], ['q', '-f']): yield list(t)


def arguments(deep):
    def ok(a): return a != ['-h'] and not any(x == '-' for x in a)
    ls = [a for a in lists(deep) if ok(a)]
    for i in range(0, len(ls), 300):
        g = ls[i:i + 300]
        yield Case('arguments %s ...' % g[0], 'RM(%s);' % json.dumps(g), '\n'.join(run(a) for a in g), n=len(g))
    vals = [True, False, 0, 1, 2, -1, 0.5, 'x', '', '1', 'true', None, [], [1], {}, {'a': 1}]
    cs = [{}] + [{k: v} for k in list(KINDS) + ['bad', 'k', '', 'F'] for v in vals] + [{a: v, b: w} for a, b in itertools.combinations(list(KINDS) + ['bad'], 2) for v in vals[:13] for w in vals[:13]]
    for i in range(0, len(cs), 300):
        g = cs[i:i + 300]
        exp = []
        for cf in g:
            s = apply(cf)
            exp.append('!' if s is None else jsj(s))
        yield Case('options %s ...' % g[0], 'CO(%s);' % json.dumps(g), '\n'.join(exp), n=len(g))


MFILE = '%s\nprovide(M, "1.2.3");\nfunction RM(xs:array) { for (var x of xs) { var r; try { r=moduleRun("M", x); } catch(e) { r="!"; } puts(r); } }\nif (Info.isMain()) moduleRun(M);\n' % (MOD % 'parseOpts(self, options, conf)')


def commandline(c, deep):
    """The same arguments given on the command line of a module that is run, and of a script that requires it."""
    d = c.workdir('m')
    open(d + '/M.jsi', 'w').write(MFILE)
    os.chmod(d, 0o755)
    exe = c.build() + '/jsish'
    ls = [a for a in lists(False) if a != ['-h']]
    ls = ls[:23] + ls[23:507:9 if not deep else 2] + ls[507::97 if not deep else 23]

    def one(a):
        rc, out, err = c.exec([exe, d + '/M.jsi'] + a, d, 20)
        out = out.decode('utf8', 'replace').strip()
        exp = run(a)
        try: got = json.loads(out)
        except ValueError: got = '!' if '|' not in out else out
        if got != exp: return a, exp, got
        with c.lock:
            c.cov['traces_validated_against_impl'] += 1
            c.cov['transitions'] += 1
        return None
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex:
        for r in ex.map(one, ls):
            if r: c.report(Case('command line %s' % r[0], '', r[1]), r[2][:300], 'expected %s got %s' % (r[1], r[2][:300]), text=MFILE)


def main():
    c = Ctx('R05')
    c.run_cases(histories(c.thorough), batch=6, prolog=HPRO)
    c.run_cases(versions(c.thorough), batch=10, prolog=VPRO)
    c.run_cases(arguments(c.thorough), batch=10, prolog=APRO + MFILE.replace('if (Info.isMain()) moduleRun(M);', '').replace('provide(M, "1.2.3");', ''))
    commandline(c, c.thorough)
    c.assumptions += ['words that abbreviate true or false, numbers with blanks, inf and nan are not used as option values', 'what a package that fails after it was provided counts as is left open']
    c.finish()


if __name__ == '__main__':
    main()
