"""File names: every pattern of up to four characters against names made of the special characters; combinations of the options
of File.glob on a tree with links and hidden and empty directories against a model; path functions over every string of up to seven
characters from . / a b; realpath, join and normalize over every path of up to four components, compared with the system."""
import fnmatch, itertools, json, os, re
from mc.core import Ctx, Case, NOBODY

# ------------------------------------------------------------------ patterns
NAMES = ['a', 'b', 'ab', 'ba', 'aa', 'bb', 'aab', 'abb', 'abc', 'bab', '-', ']', 'a-', 'a]', '[', '[a', '[a]', '^', '^a', 'a^b', '*', 'a*', '*b', '?', 'a?b', '\\', 'a\\', '\\b', 'B', 'aB', 'c', 'cc', 'é', 'aé', 'éa', '.h', '.hb', 'a.b', 'a b', 'abab', 'x,y', '!a', '!']
GPRO = 'var NM=%s; File.mkdir("p"); for (var n of NM) File.write("p/"+n, ""); File.chdir("p");\nfunction G(ps:array) { for (var p of ps) { var r; try { r=File.glob(p); } catch(e) { r=["!"]; } puts(r.join("|")); } }\n' % json.dumps(NAMES, ensure_ascii=False)


def gmatch(p, s):
    """Glob matching by characters: * ? [set] [a-b] and a backslash before a character that stands for itself."""
    if not p: return not s
    c = p[0]
    if c == '*': return gmatch(p[1:], s) or (s != '' and gmatch(p, s[1:]))
    if not s: return False
    if c == '?': return gmatch(p[1:], s[1:])
    if c == '[':
        hit, rest = charset(p[1:], s[0])
        return hit and gmatch(rest, s[1:])
    if c == '\\' and len(p) > 1: return p[1] == s[0] and gmatch(p[2:], s[1:])
    return c == s[0] and gmatch(p[1:], s[1:])


def charset(p, ch):
    """After the [: (does ch belong, the pattern after the ]); sets are characters and ranges, there is no complement."""
    hit = False
    while p and p[0] != ']':
        if len(p) > 2 and p[1] == '-' and p[2] != ']':
            if min(p[0], p[2]) <= ch <= max(p[0], p[2]): hit = True
            p = p[3:]
            continue
        if p[0] == ch: hit = True
        p = p[1:]
    return hit, p[1:]


def patterns(deep):
    al = ['a', 'b', '*', '?', '[', ']', '-', '^', '\\']
    for d in range(1, 6 if deep else 5):
        ps = [''.join(t) for t in itertools.product(al, repeat=d)]
        # what a set that is not closed, an escape at the end or an odd range mean is left open
        ps = [p for p in ps if closed(p)]
        for i in range(0, len(ps), 100):
            g = ps[i:i + 100]
            exp = []
            for p in g:
                r = sorted((n for n in NAMES if n[0] != '.' and gmatch(p, n)), key=lambda n: n.encode())
                if p == '*': exp.append('|'.join(r))
                elif '*' in p: exp.append('|'.join(r))
                else: exp.append('|'.join('./' + n for n in r))
            yield Case('patterns %s ...' % g[0], 'G(%s);' % json.dumps(g), '\n'.join(exp), n=len(g))
    wide = ['é', '?', '*é', '[é]', '[éa]*', '[ab]*[bc]', '[a-c]b', '[c-a]?', '[a-é]', 'a?', '?a', '*[é]', 'x,y', 'a b', '*.b', '*b*b', 'a*b*', '*a*b*', '**a', 'a**b', '*?*', '??', '???', '*\\*', '\\[*', '*\\]', '*[*]', '*[?]*']
    for p in wide:
        r = sorted((n for n in NAMES if n[0] != '.' and gmatch(p, n)), key=lambda n: n.encode())
        yield Case('pattern ' + p, 'G(%s);' % json.dumps([p], ensure_ascii=False), '|'.join(r if '*' in p else ['./' + n for n in r]))


def closed(p):
    i = 0
    while i < len(p):
        if p[i] == '\\':
            if i + 1 >= len(p): return False
            i += 2
        elif p[i] == '[':
            i += 1
            body = ''
            if p[i:i + 1] == '^': return False
            while True:
                if i >= len(p): return False
                if p[i] == ']' and body: break
                if p[i] in '\\]-^': return False
                body += p[i]
                i += 1
                if p[i:i + 1] == '-' and p[i + 1:i + 2] in ('a', 'b', '*', '?'):
                    body += p[i:i + 2]
                    i += 2
            i += 1
        else: i += 1
    return True


# ------------------------------------------------------------------ options of File.glob
TREE = {'D': None, 'D/a.c': 'x', 'D/b.h': 'yy', 'D/x1': '', 'D/E': None, 'D/E/a.c': 'zzz', 'D/E/F': None, 'D/E/F/deep.c': '1', 'D/E/e.txt': '4444', 'D/.hid': 'h', 'D/.hd': None, 'D/.hd/z': 'z', 'D/empty': None,
        'D/lf': '->a.c', 'D/ld': '->E', 'D/dang': '->nope', 'D/G': None, 'D/G/a.c': '22', 'D/G/g.h': '', 'top.c': 't', 'z': 'q', 'D2': None, 'D2/a.c': 'k', 'D2/xx': ''}
OPRO = r'''var TREE=%s;
File.mkdir('w'); File.chdir('w');
for (var k of Object.keys(TREE)) if (TREE[k]===null) File.mkdir(k);
for (var k of Object.keys(TREE)) if (TREE[k]!==null) { if (TREE[k].substr(0,2)=='->') File.link(TREE[k].substr(2), k); else File.write(k, TREE[k]); }
var CWD=File.pwd(), LOG=[];
function fil(f:string) { LOG.push('f:'+f); return f[0]!='a'; }
function fn0(f:string) { return false; }
function dfl(f:string) { LOG.push('d:'+f.split(CWD).join('~')); return f.substr(f.length-1)!='E'; }
function dfn(f:string) { return false; }
function S(r:any) { if (typeof r=='number') return ''+r; if (typeof r=='undefined') return 'U'; var o=[];
  for (var i=0; i<r.length; i++) { if (typeof r[i]=='string') o.push(r[i].split(CWD).join('~')); else o.push(r[i].name.split(CWD).join('~')+'('+r[i].size+','+r[i].perms[0]+')'); } return o.join('|'); }
function O(p:any, o:object, n=2) { LOG=[]; var r; try { r=S(n==1?File.glob(o):File.glob(p,o)); } catch(e) { r='!'; } puts(r+' '+LOG.join(' ')); }
''' % json.dumps(TREE)


class Tree:
    def __init__(self, t):
        self.t = t

    def norm(self, p):
        """The entry a path leads to, following links to directories on the way."""
        out = []
        for c in p.split('/'):
            if c in ('', '.'): continue
            out.append(c)
            q = '/'.join(out)
            v = self.t.get(q, 0)
            if isinstance(v, str) and v.startswith('->') and self.isdir('/'.join(out[:-1] + [v[2:]])): out = out[:-1] + [v[2:]]
        return '/'.join(out)

    def isdir(self, q): return q == '' or (q in self.t and self.t[q] is None)

    def ls(self, p):
        q = self.norm(p)
        if not self.isdir(q): return None
        pre = q + '/' if q else ''
        return sorted(k[len(pre):] for k in self.t if k.startswith(pre) and '/' not in k[len(pre):] and k != q)

    def kind(self, p, z):
        """What File.glob takes the entry for, or None for a dangling link."""
        q = self.norm(p)
        v = self.t[(q + '/' if q else '') + z]
        if v is None: return 'd'
        if v.startswith('->'):
            tgt = (q + '/' if q else '') + v[2:]
            if tgt not in self.t: return None
            return 'd' if self.isdir(tgt) else 'l'
        return 'f'

    def size(self, p, z):
        q = self.norm(p)
        v = self.t[(q + '/' if q else '') + z]
        if v is not None and v.startswith('->'): v = self.t[(q + '/' if q else '') + v[2:]]
        return v


T = Tree(TREE)
FILT = {'none': None, 'fil': lambda f: f[0] != 'a', 'fn0': lambda f: False}
DFILT = {'none': None, 'dfl': lambda f: f[-1] != 'E', 'dfn': lambda f: False}


class Bad(Exception):
    pass


def glob(pat, o):
    """The model of File.glob; pat is None, a glob or /re/."""
    log, out = [], []
    limit = o.get('limit', 0)
    maxd = o.get('maxDepth', 0)
    filt, dfilt = o.get('filter'), o.get('dirFilter')
    rec = o.get('recurse', False)
    dirv = o.get('dir')
    st = {'cnt': 0, 'disc': 0}
    rx = pat is not None and pat.startswith('/')

    def match(z, p):
        if rx: return re.search(pat[1:-1], z) is not None
        return p is None or gmatch(p, z)

    def full(): return limit > 0 and st['cnt'] >= limit

    def given_up(): return o.get('maxDiscard', 0) > 0 and st['disc'] >= o['maxDiscard']

    def walk(spath, p, deep, mid):
        names = T.ls(spath.replace('~', '', 1) if spath.startswith('~') else spath)
        if names is None:
            if rec and deep: return
            raise Bad()
        real = spath.replace('~', '', 1) if spath.startswith('~') else spath
        for z in names:
            if z[0] == '.': continue
            k = T.kind(real, z)
            if k is None: continue
            if k != 'd' and mid: continue
            child = spath + ('/' if spath else '') + z
            if k == 'd' and mid:
                if not match(z, p): continue
                if full(): break
                pathpat(child + mid)
                continue
            if k == 'd' and rec and (maxd <= 0 or deep + 1 <= maxd):
                if dfilt:
                    log.append('d:' + child) if dfilt == 'dfl' else None
                    if not DFILT[dfilt](child): continue
                walk(child, p, deep + 1, None)
                if full() or given_up(): return
            if o.get('types') and k not in o['types']: continue
            if o.get('noTypes') and k in o['noTypes']: continue
            if not match(z, p): continue
            if filt:
                if filt == 'fil': log.append('f:' + z)
                if not FILT[filt](z):
                    st['disc'] += 1
                    continue
            st['cnt'] += 1
            if not o.get('retCount'):
                s = z if o.get('tails') else child
                d = dirv if dirv is not None else '~'
                if not o.get('tails') and s.startswith(d) and (s[len(d):len(d) + 1] == '/' or d[-1] == '/'):
                    s = s[len(d):]
                    if s[:1] == '/' and not o.get('prefix'): s = s[1:]
                if o.get('retInfo'):
                    v = T.size(real, z)
                    s = '%s(%s,%s)' % (s, '*' if v is None else len(v), 'd' if k == 'd' else '-')
                elif o.get('prefix'): s = o['prefix'] + s
                out.append(s)
            if full() or given_up(): break

    def pathpat(path):
        """dir/pat, */x, ...: the first component with a * is matched, the rest follows for directories."""
        i = path.find('*')
        if i < 0:
            d, _, p = path.rpartition('/')
            walk(d if '/' in path else '.', p, 0, None)
            return
        a = path.rfind('/', 0, i)
        b = path.find('/', i)
        d = path[:a] if a > 0 else ('/' if a == 0 else '')
        walk(d, path[a + 1:b if b >= 0 else len(path)], 0, path[b:] if b >= 0 else None)
    p = pat if pat is not None else '*'
    try:
        if rx: walk(o.get('dir') if False else '', None, 0, None)
        elif rec:
            if '/' in p: raise Bad()
            walk(dirv if dirv is not None else '~', p, 0, None)
        else:
            pre = '' if dirv is None else dirv + ('' if dirv.endswith('/') else '/')
            if dirv is None and p == '*': walk('', '*', 0, None)
            else: pathpat(pre + p)
    except Bad: return '!', log
    if o.get('retCount'): return str(st['cnt']), log
    return '|'.join(out), log


OPTS = [('dir', ['D', 'D/', 'D/E', 'nodir', 'D/ld']), ('recurse', [True]), ('tails', [True]), ('prefix', ['P']), ('types', ['f', 'd', 'l', 'fd', 'dl', 'p']), ('noTypes', ['f', 'd', 'l', 'fl']),
        ('limit', [1, 2, 5, -1]), ('maxDepth', [1, 2, 3]), ('maxDiscard', [1, 2]), ('filter', ['fil', 'fn0']), ('dirFilter', ['dfl', 'dfn']), ('retCount', [True]), ('retInfo', [True])]
PATS = [None, '*', '*.c', 'a*', '*a*', 'x?', 'a.c', '[a-e]*', '/\\.c$/', '/^[a-z]/']


def jo(o):
    return '{' + ', '.join('%s:%s' % (k, v if k in ('filter', 'dirFilter') else json.dumps(v)) for k, v in o.items()) + '}'


def gcase(pat, o, n=2):
    r, log = glob(pat, o)
    pj = 'null' if pat is None else (pat if pat.startswith('/') else json.dumps(pat))
    key = 'glob(%s, %s)' % (pj, jo(o)) if n == 2 else 'glob(%s)' % jo(o)
    exp = r + ' ' + ' '.join(log)
    src = 'O(%s, %s%s);' % (pj, jo(o), '' if n == 2 else ', 1')
    if '(*,' in exp:        # the size of a directory is the system's
        rx = re.compile(re.escape(exp).replace(r'\(\*,', r'\(\d+,') + '$')
        return Case(key, src, lambda g: None if rx.match(g) else 'expected %r got %r' % (exp[:400], g[:400]))
    return Case(key, src, exp)


def options(deep):
    items = [(k, v) for k, vs in OPTS for v in vs]
    for d in range(0, 5 if deep else 4):
        for sel in itertools.combinations(OPTS, d):
            for vals in itertools.product(*[vs for k, vs in sel]):
                o = dict(zip([k for k, vs in sel], vals))
                if o.get('retCount') and o.get('retInfo'): continue
                if 'prefix' in o and ('dir' not in o or 'tails' in o or 'retInfo' in o): continue
                if o.get('dir') == 'nodir' and d > 2: continue
                if 'dirFilter' in o or 'maxDepth' in o:
                    if 'recurse' not in o and d > 2: continue
                for pat in (PATS if d < 3 or deep else ['*.c', None, '*a*']):
                    if pat and pat.startswith('/') and ('dir' in o or 'recurse' in o): continue     # a regexp looks in the current directory
                    yield gcase(pat, o)
                    if pat is None and d < 3: yield gcase(pat, o, 1)
    for pat in ['D/*', 'D/*.c', '*/*', '*/a*', 'D/*/*', 'D/*/*.c', '*/*/*', '*/E/*', '*/E/*.c', 'D*/x*', 'D/E/*', 'D/E/F/*', 'D/a.c', 'D/a*', 'D/*/a.c', 'nodir/*', 'D*/*', 'D/l*/*', 'D/[EG]/*', './*', './D/*', '*/', 'D2/*', 'D/nope*', 'z*', '*.c/*']:
        for o in ({}, {'types': 'f'}, {'types': 'd'}, {'tails': True}, {'retCount': True}, {'filter': 'fil'}, {'limit': 2}):
            if '[' in pat or pat == '*/': continue
            yield gcase(pat, o)


# ------------------------------------------------------------------ path text
def dirname(p):
    i = p.rfind('/')
    if i < 0: return '..' if p == '..' else '.'
    return '/' if i == 0 else p[:i]


def rootname(p):
    i, j = p.rfind('/'), p.rfind('.')
    return p if j < 0 or i > j else p[:j]


def extension(p):
    i, j = p.rfind('/'), p.rfind('.')
    return '' if j < 0 or i > j else p[j:]


def pathtext(deep):
    for d in range(0, 8 if deep else 7):
        ps = [''.join(t) for t in itertools.product('./ab', repeat=d)]
        for i in range(0, len(ps), 200):
            g = ps[i:i + 200]
            exp = ['|'.join((dirname(p), p[p.rfind('/') + 1:], rootname(p), extension(p), 'false' if p[:1] == '/' else 'true')) for p in g]
            yield Case('path text %r ...' % g[0], 'PT(%s);' % json.dumps(g), '\n'.join(exp), n=len(g))


PPRO = r'''function PT(ps:array) { for (var p of ps) puts([File.dirname(p), File.tail(p), File.rootname(p), File.extension(p), File.isrelative(p)].join('|')); }
File.mkdir('w'); File.mkdir('w/d'); File.mkdir('w/d/s'); File.write('w/f','f'); File.write('w/d/g','g'); File.link('d','w/k'); File.link('f','w/l'); File.link('nowhere','w/x'); File.link('../k/s','w/d/up'); File.link('loop','w/loop'); File.chdir('w');
var TOP=File.pwd();
function sh(s:any) { return typeof s=='undefined' ? 'U' : s.split(TOP).join('~'); }
function RP(ps:array) { for (var p of ps) puts(sh(File.realpath(p))+'|'+sh(File.normalize(p))); }
function RA(ps:array) { for (var p of ps) puts(sh(File.realpath(TOP+'/'+p))+'|'+sh(File.normalize(TOP+'/'+p))); }
function JO(ps:array) { for (var p of ps) { var r; try { r=sh(File.join(p[0], p[1])); } catch(e) { r='!'; } puts(r); } }
'''


def mktree(c):
    d = c.workdir('t')
    w = os.path.join(d, 'w')
    os.makedirs(w + '/d/s')
    open(w + '/f', 'w').write('f')
    open(w + '/d/g', 'w').write('g')
    for a, b in (('d', 'k'), ('f', 'l'), ('nowhere', 'x'), ('../k/s', 'd/up'), ('loop', 'loop')): os.symlink(a, w + '/' + b)
    return w


def syspaths(c, deep):
    top = mktree(c)
    comps = ['d', 's', 'f', 'k', 'l', '.', '..', 'x', 'e', '', 'up', 'g', 'loop']

    def back(s): return s.replace('~', top, 1) if s.startswith('~') else s

    def judge(ps, absolute):
        def f(got):
            ls = got.split('\n')
            if len(ls) != len(ps): return 'expected %d lines got %d' % (len(ps), len(ls))
            for p, ln in zip(ps, ls):
                q = top + '/' + p
                rp, nm = ln.split('|')
                if p == '' and not absolute:
                    if ln != 'U|U': return 'the empty path gave ' + ln
                    continue
                want = os.path.realpath(q)
                lead = os.path.realpath(back(rp))
                if os.path.exists(q):
                    if back(rp) != want: return 'realpath(%s) is %s, expected %s' % (p, rp, want.replace(top, '~'))
                elif not os.path.isabs(back(rp)) or (lead != want and back(rp) != os.path.normpath(q) and 'loop' not in p): return 'realpath(%s) is %s, which leads to %s instead of %s' % (p, rp, lead.replace(top, '~'), want.replace(top, '~'))
                if not os.path.isabs(back(nm)) or (os.path.realpath(back(nm)) != want and 'loop' not in p) or (os.path.exists(q) and not os.path.exists(back(nm))): return 'normalize(%s) is %s, which does not lead to %s' % (p, nm, want.replace(top, '~'))
            return None
        return f
    todo = []
    for d in range(0, 5 if deep else 4):
        for t in itertools.product(comps, repeat=d): todo.append('/'.join(t))
    todo = [p for p in sorted(set(todo)) if not escapes(p)]
    for i in range(0, len(todo), 100):
        g = todo[i:i + 100]
        rel = [p for p in g if not p.startswith('/')]
        if rel: yield Case('paths %s ...' % rel[0], 'RP(%s);' % json.dumps(rel), judge(rel, False), n=len(rel))
        yield Case('absolute paths %s ...' % g[0], 'RA(%s);' % json.dumps(g), judge(g, True), n=len(g))
    # join
    two = [p for p in todo if p.count('/') < 2]
    jo_ = [(a, b_) for a in two[:90] for b_ in ('f', 'd', '../f', 'e', '.', '..', 'k/s', '', '/', '/etc/../tmp')]

    def jj(ps):
        def f(got):
            ls = got.split('\n')
            if len(ls) != len(ps): return 'expected %d lines got %d' % (len(ps), len(ls))
            for (a, b_), ln in zip(ps, ls):
                q = b_ if b_.startswith('/') else (a if a.startswith('/') else top + '/' + a) + '/' + b_
                if not a and not b_.startswith('/'): q = '/' + b_
                want = os.path.realpath(q)
                if os.path.exists(q):
                    if back(ln) != want: return 'join(%s, %s) is %s, expected %s' % (a, b_, ln, want.replace(top, '~'))
                elif ln != '!' and os.path.realpath(back(ln)) != want and back(ln) != os.path.normpath(q) and 'loop' not in a: return 'join(%s, %s) is %s, which does not lead to %s' % (a, b_, ln, want.replace(top, '~'))
            return None
        return f
    jo_ = [x for x in jo_ if not escapes(x[0] + '/' + x[1])]
    for i in range(0, len(jo_), 60): yield Case('join %s %s ...' % jo_[i], 'JO(%s);' % json.dumps(jo_[i:i + 60]), jj(jo_[i:i + 60]), n=60)


def escapes(p):
    """More .. than components before them: would leave the tree of the check."""
    n = 0
    for x in p.split('/'):
        if x == '..': n -= 1
        elif x not in ('', '.', 'f', 'l', 'x', 'e', 'g', 'loop'): n += 1
        if n < 0: return True
    return False


def main():
    c = Ctx('F03')
    c.run_cases(patterns(c.thorough), batch=10, prolog=GPRO)
    c.run_cases(options(c.thorough), batch=1000, prolog=OPRO)
    c.run_cases(pathtext(c.thorough), batch=8, prolog=PPRO)
    c.run_cases(syspaths(c, c.thorough), batch=6, prolog=PPRO)
    c.assumptions += ['the meaning of a set without ], and of ranges with special characters, is left open', 'LC_ALL=C.UTF-8, Linux']
    c.finish()


if __name__ == '__main__':
    main()
