"""Virtual file systems (Vfs): a mounted list of files reads like the same files on disk; histories of mounts, callbacks, open files."""
import itertools, json, os
from mc.core import Ctx, Case
from checks.Z01 import CPRO, PRO, channels_cases, contents, lines, opened, put

J = json.dumps


def chan(T, fix):
    small = b'ab\ncdefg\n\nxyz \xc3\xa9\n123'
    big = lines(400)[:20000]
    put(fix + '/small', small); put(fix + '/big', big)
    for way in ('data', 'file'):
        pro = "vfs(%s,'/%s',{'small':'%s/small','dir/big':'%s/big','other':'%s/big'});\n" % (J(way), way, fix, fix, fix)
        yield from channels_cases(T, fix, small, big, '/' + way, way, pro)


VPRO = CPRO + r'''
function vfs(way, mount, fs) {
    if (Vfs.list().indexOf(mount)>=0) return;
    var l=[];
    for (var f in fs) if (way==='data') l.push({file:f, data:File.read(fs[f])}); else l.push({file:f});
    if (way==='data') { Vfs.vmount({mount:mount, fileList:l}); return; }
    Vfs.vmount({mount:mount, callback:function(op:string, mount:string, arg:any=0) {
        if (op==='list') return l;
        if (op==='file') return File.read(fs[arg]);
        return null;
    }});
}
'''


def data(T, fix):
    """Contents given as data, by a callback, with sizes that are right, wrong or missing."""
    for n, b in contents(T):
        if n[0] in 'nh': b = b.decode('latin-1').encode('utf8')  # text: data is a string
        p = fix + '/data/' + n
        put(p, b)
        for way in ('data', 'file'):
            for size in ('right', 'none', 'short', 'long'):
                sz = {'right': len(b), 'none': None, 'short': len(b) // 2, 'long': len(b) + 7}[size]
                first = len(b) if way == 'data' else (sz or 0)
                js = "one('%s',%s,'%s');" % (way, 'null' if sz is None else sz, p)
                yield Case('contents %s as %s, size %s' % (n, way, size), js, 'true true true %d %d\n' % (first, len(b)) + 'END', 4)


DPRO = PRO + r'''
function one(way, sz, p) {
    var f={file:'x/f'}, s=File.read(p), calls=0, c;
    if (sz!==null) f.size=sz;
    if (way==='data') { f.data=s; Vfs.vmount({mount:'/m',fileList:[f]}); }
    else Vfs.vmount({mount:'/m',callback:function(op:string, mount:string, arg:any=0) { if (op==='list') return [f]; if (op==='file') { calls++; return s; }; return null; }});
    var s1=File.size('/m/x/f'), r=File.read('/m/x/f')===s, t='', x;
    c=new Channel('/m/x/f'); while (typeof (x=c.read(1000))==='string' && x!=='') t+=x; c.close();
    var k=true, e=new Channel(p), y;
    c=new Channel('/m/x/f');
    while (1) { x=c.gets(); y=e.gets(); if (!same(x,y)) { k=false; break; }; if (typeof x==='undefined') break; }
    c.close(); e.close();
    puts(r, t===s, k, s1, File.size('/m/x/f'));
    if (calls>1) puts('calls',calls);
    Vfs.unmount('/m');
    puts('END');
}
'''


def trees(T, fix):
    """The same files in a mount and on disk: every question gets the same answer."""
    P = ['a', 'dog.txt', 'd/a', 'd/e/f', 'd2/x y', 'd/e/g.txt'] + (['d2/q/r/s', 'z\u00e9'] if T else [])
    asked = sorted({q for p in P for k in range(p.count('/') + 1) for q in [p.rsplit('/', k)[0]]} | {'nope', 'd/nope', 'a/x', 'dd', 'd2/x', 'ab', 'd/g.txt', 'd/og.txt'})
    asked += [q + '/' for q in ('d', 'd/e', 'a', 'nope')]
    k = 0
    for n in range(1, len(P) + 1):
        for S in itertools.combinations(P, n):
            for perm in ((0, 1) if n > 1 else (0,)):
                d = '%s/tr/%d' % (fix, k)
                k += 1
                for i, p in enumerate(S): put(d + '/' + p, lines(i * 3), 1000000 + i * 1000, [0o644, 0o444, 0o755][i % 3])
                fl = [{'file': p, 'data': lines(i * 3).decode(), 'timestamp': 1000000 + i * 1000, 'perms': [0o644, 0o444, 0o755][i % 3]} for i, p in enumerate(S)]
                if perm: fl.reverse()
                yield Case('tree %s%s' % (' '.join(S), ' reversed' if perm else ''), "tree('%s',%s,%s);" % (d, J(fl), J(asked)), '', len(asked))


# Directories with many entries, and with many directories.
def wide(T, fix):
    for n in (1, 2, 49, 50, 51, 52, 99, 100, 101, 150) + ((199, 200, 201, 500) if T else ()):
        for sub in (False, True):
            d, fl = '%s/wide/%d%s' % (fix, n, sub), []
            for i in range(n):
                p = 'd/%s%d%s' % ('f' if i % 3 else 'b', i * 37 % 1000, '/x' if sub else '')
                put(d + '/' + p, b'%d' % i, 1000000, 0o644)
                fl.append({'file': p, 'data': str(i), 'timestamp': 1000000, 'perms': 0o644})
            yield Case('wide %d%s' % (n, ' dirs' if sub else ''), "tree('%s',%s,%s);" % (d, J(fl), J(['d', 'd/b0', 'd/f37', 'd/f111'])), '', 4)


TPRO = PRO + r'''
function ask(r, q) {
    var p=r+'/'+q, o=[File.exists(p), File.isfile(p), File.isdir(p)];
    if (File.isfile(p)) { o.push(File.size(p)); o.push(File.read(p)); o.push(File.mtime(p)); o.push(File.perms(p)); var s=File.stat(p); o.push(s.size); o.push(s.mtime); o.push(s.mode); }
    else o.push(T(function() { return File.read(p).length; }));
    if (File.isdir(p)) o.push(T(function() { return File.glob('*',{dir:p}).sort(); }));
    return JSON.stringify(o);
}
function tree(d, fl, asked) {
    var m=Vfs.vmount({fileList:fl});
    for (var q of asked) { var x=ask(m,q), y=ask(d,q); if (x!==y) puts(q,x,y); }
    for (var o of [{},{recurse:true},{recurse:true,types:'f'},{recurse:true,types:'d'}]) for (var pat of ['*','*.txt','d*',/^[ab]/]) {
        var a={dir:m}, b={dir:d};
        for (var k in o) { a[k]=o[k]; b[k]=o[k]; }
        var x=JSON.stringify(T(function() { return File.glob(pat,a).sort(); })), y=JSON.stringify(T(function() { return File.glob(pat,b).sort(); }));
        if (x!==y) puts('glob',pat,o,x,y);
    }
    Vfs.unmount(m);
    if (Vfs.list().length) puts('still mounted');
    for (var q of asked) if (File.exists(m+'/'+q)) puts(q,'still there');
}
'''


# --- histories of mounts; the model is a dict of mounts.
OPS = {
    'A': "Vfs.vmount({mount:'/A',fileList:[{file:'f',data:'one'},{file:'d/g',data:'two'}]})",
    'C': "Vfs.vmount({mount:'/C',callback:cb})",
    'Cx': "Vfs.vmount({mount:'/C',callback:cbx})",      # init throws
    'Cl': "Vfs.vmount({mount:'/C',callback:cbl})",      # list is no list
    'Cd': "Vfs.vmount({mount:'/C',callback:cbd})",      # list with a file twice
    'Cu': "Vfs.vmount({mount:'/C',callback:cbu})",      # tries to unmount itself in each callback
    'Ct': "Vfs.vmount({mount:'/C',callback:cbt})",      # throws when unmounted
    'uA': "Vfs.unmount('/A')", 'uC': "Vfs.unmount('/C')",
    'rA': "File.read('/A/f')", 'rC': "File.read('/C/c')",
    'oA': "ch.push(new Channel('/A/f'))&&1", 'oC': "ch.push(new Channel('/C/c'))&&1",
    'x': "ch.length?ch[ch.length-1].read(2):'-'", 'q': "ch.length?(ch.pop().close(),1):'-'",
    'sA': "Vfs.fileconf('/A','f',{data:'other text'})", 'sC': "Vfs.fileconf('/C','c',{data:'set'})",
    'gA': "Vfs.fileconf('/A','nope')", 'N': "Vfs.vmount({fileList:[{file:'n',data:'N'}]})",
}


def mounts(T, fix):
    al = list(OPS)
    if not T: al = [o for o in al if o not in ('gA',)]
    for n in range(1, 5 if T else 4):
        for ops in itertools.product(al, repeat=n):
            if n >= 3 and (not any(o in ('A', 'N') or o[0] == 'C' for o in ops[:1]) or ops[0] == 'N'): continue
            m, ch, exp, thr = {}, [], [], False
            for o in ops:
                r = 'X'
                if o == 'A':
                    if '/A' not in m: m['/A'] = {'f': 'one', 'd/g': 'two'}; r = '/A'
                elif o in ('C', 'Cu', 'Ct'):
                    if '/C' not in m: m['/C'] = {'c': 'uu\n' if o == 'Cu' else 'cc\n'}; r = '/C'; thr = o == 'Ct'
                elif o == 'N':
                    i = 1
                    while '/vfs%d' % i in m: i += 1
                    m['/vfs%d' % i] = {'n': 'N'}; r = '/vfs%d' % i
                elif o[0] == 'u':
                    if m.pop('/' + o[1], None) is not None: r = 'X' if o == 'uC' and thr else 'U'
                elif o == 'rA': r = m['/A']['f'] if '/A' in m else 'X'
                elif o == 'rC': r = m['/C']['c'] if '/C' in m else 'X'
                elif o in ('oA', 'oC'):
                    k = {'oA': ('/A', 'f'), 'oC': ('/C', 'c')}[o]
                    if k[0] in m: ch.append([m[k[0]][k[1]], 0]); r = 1
                elif o == 'x':
                    if not ch: r = '-'
                    else:
                        c = ch[-1]; r = c[0][c[1]:c[1] + 2]; c[1] += len(r)
                        if r == '': r = 'U'
                elif o == 'q':
                    r = '-' if not ch else 1
                    if ch: ch.pop()
                elif o == 'sA':
                    if '/A' in m: m['/A']['f'] = 'other text'; r = 'U'
                elif o == 'sC':
                    if '/C' in m: m['/C']['c'] = 'set'; r = 'U'
                exp.append(r)
            end = [sorted(m), sorted([k + '/' + f, t] for k, v in m.items() for f, t in v.items())]
            js = 'var ch=[], o=[];\n' + ''.join('o.push(T(function() { return %s; }));\n' % OPS[o] for o in ops) + 'fin(o);'
            yield Case('mounts: ' + ' '.join(ops), js, J([exp] + end, separators=(',', ':')), n)


# --- mounts below one another: a path belongs to the deepest mount it is in.
NEST = ['/n', '/n/d', '/n/d/e', '/nn', '/n/dd']
NPATH = ['/n/a', '/n/d/a', '/n/d/b', '/n/d/e/a', '/n/d/e/b', '/n/d/x/a', '/nn/a', '/n/dd/a', '/n/ddd', '/nnn/a', '/n/d/e/x/a']


def nested(T):
    files = {'/n': ['a', 'd/a', 'd/e/a', 'd/x/a', 'dd/a', 'ddd'], '/n/d': ['a', 'b', 'e/b', 'e/x/a'], '/n/d/e': ['a', 'b'], '/nn': ['a'], '/n/dd': ['a']}
    js = {m: 'Vfs.vmount({mount:%s,fileList:%s})' % (J(m), J([{'file': f, 'data': m + ':' + f} for f in fs])) for m, fs in files.items()}
    def answers(m):
        r = []
        for p in NPATH:
            own = [k for k in m if p.startswith(k + '/')]
            k = max(own, key=len) if own else None
            r.append(k + ':' + p[len(k) + 1:] if k and p[len(k) + 1:] in files[k] else 'X')
        return r
    for n in range(1, 6):
        for ms in itertools.permutations(NEST, n):
            seqs = [[('m', x) for x in ms]]
            if n <= (5 if T else 4): seqs += [[('m', x) for x in ms] + [('u', x) for x in us] for us in (ms, ms[::-1], ms[1:2])]
            for seq in seqs:
                m, exp, src = set(), [], ''
                for op, x in seq:
                    (m.add if op == 'm' else m.discard)(x)
                    src += '%s; ask();\n' % (js[x] if op == 'm' else 'Vfs.unmount(%s)' % J(x))
                    exp.append(answers(m))
                yield Case('nested: ' + ' '.join(o + x for o, x in seq), src + 'done();', '\n'.join('|'.join(a) for a in exp), n)


NPRO = PRO + 'var np=%s;' % J(NPATH) + r'''
function ask() { puts(np.map(function(p) { return T(function() { return File.read(p); }); }).join('|')); }
function done() { for (var m of Vfs.list()) Vfs.unmount(m); }
'''

# --- types of VFS: a set of named callbacks; what is mounted outlives its type.
TYPE = {
    'D': "Vfs.type('t',{callback:ct})", 'E': "Vfs.type('u',{callback:cu,noAddDirs:true,extra:{x:1}})", 'B': "Vfs.type('t',{noAddDirs:true})", 'B2': "Vfs.type('t',{callback:ct,nope:1})",
    'R': "Vfs.type('t',null)", 'M': "Vfs.mount('t','F',{a:1})", 'N': "Vfs.mount('u','G')", 'V': "Vfs.vmount({type:'t',callback:ct})", 'W': "Vfs.vmount({type:'t',mount:'/w'})", 'U': "Vfs.unmount(Vfs.list().sort()[0])",
}


def types(T):
    for n in range(1, 6 if T else 5):
        for ops in itertools.product(TYPE, repeat=n):
            if n >= 4 and (ops[0] != 'D' or not set(ops[1:]) & {'M', 'W'}): continue
            d, m, exp, src = set(), {}, [], ''
            for o in ops:
                r = 'X'
                if o in 'DE':
                    k = 't' if o == 'D' else 'u'
                    if k not in d: d.add(k); r = 'U'
                elif o == 'R':
                    if 't' in d: d.discard('t'); r = 'U'
                elif o in 'MN':
                    if ('t' if o == 'M' else 'u') in d:
                        i = 1
                        while '/vfs%d' % i in m: i += 1
                        r = '/vfs%d' % i
                        m[r] = [r + '/t', 'T F t {"a":1}'] if o == 'M' else [r + '/u/v', 'U G u {"x":1}']
                elif o == 'W':
                    if 't' in d and '/w' not in m: r = '/w'; m[r] = ['/w/t', 'T null t null']
                elif o == 'U' and m: del m[min(m)]; r = 'U'
                exp.append('%s %s %s' % (r, ''.join(sorted(d)), '|'.join('%s=%s' % tuple(m[k]) for k in sorted(m))))
                src += 'now(function() { return %s; });\n' % TYPE[o]
            yield Case('types: ' + ' '.join(ops), src + 'done();', '\n'.join(exp), n)


YPRO = PRO + r'''
function ct(op:string, mount:string, arg:any=0) { if (op==='list') return [{file:'t'}]; if (op==='file') return 'T '+Vfs.conf(mount,'file')+' '+Vfs.conf(mount,'type')+' '+JSON.stringify(Vfs.conf(mount,'param')).replace(/ /g,''); return null; }
function cu(op:string, mount:string, arg:any=0) { if (op==='list') return [{file:'u/v'}]; if (op==='file') return 'U '+Vfs.conf(mount,'file')+' '+Vfs.conf(mount,'type')+' '+JSON.stringify(Vfs.conf(mount,'extra')).replace(/ /g,''); return null; }
function now(f) {
    var r=T(f), o=[];
    for (var m of Vfs.list().sort()) for (var p of ['/t','/u/v']) if (File.exists(m+p)) o.push(m+p+'='+T(function() { return File.read(m+p); }));
    puts(r, Vfs.type().filter(function(x) { return x.length===1; }).sort().join(''), o.join('|'));
}
function done() { for (var m of Vfs.list()) Vfs.unmount(m); for (var t of ['t','u']) if (Vfs.type().indexOf(t)>=0) Vfs.type(t,null); }
'''

MPRO = PRO + r'''
function cb(op:string, mount:string, arg:any=0) { if (op==='list') return [{file:'c',size:3}]; if (op==='file') return 'cc\n'; return null; }
function cbx(op:string, mount:string, arg:any=0) { throw 'x'; }
function cbt(op:string, mount:string, arg:any=0) { if (op==='done') throw 'x'; return cb(op,mount,arg); }
function cbl(op:string, mount:string, arg:any=0) { if (op==='list') return 5; return null; }
function cbd(op:string, mount:string, arg:any=0) { if (op==='list') return [{file:'c',data:'1'},{file:'d/c',data:'3'},{file:'c',data:'2'}]; return null; }
function cbu(op:string, mount:string, arg:any=0) { T(function() { Vfs.unmount(mount); }); if (op==='list') return [{file:'c'}]; if (op==='file') return 'uu\n'; return null; }
function fin(o) {
    var l=Vfs.list().sort(), r=[];
    for (var m of l) for (var f of File.glob('*',{dir:m,recurse:true,types:'f'}).sort()) r.push([m+'/'+f, T(function() { return File.read(m+'/'+f); })]);
    puts(JSON.stringify([o,l,r]).replace(/\[ /g,'[').replace(/ \]/g,']').replace(/, /g,','));
    for (var m of l) T(function() { Vfs.unmount(m); });
}
'''


def main():
    c = Ctx('V01')
    T = c.thorough
    for k in ('states', 'transitions', 'traces_validated_against_impl'): c.cov.setdefault(k, 0)
    fix = os.path.join(c.scratch, 'fix')
    os.makedirs(fix)
    c.build('std'); c.build('asan')
    fam = {}
    def run(name, it, **kw):
        cs = list(it)
        opened(fix)
        fam[name] = len(cs)
        if not c.stop: c.run_cases(cs, **kw)
    run('wide', wide(T, fix), batch=2, prolog=TPRO)
    run('wide asan', wide(T, fix), batch=2, prolog=TPRO, kind='asan')
    run('trees', trees(T, fix), batch=16, prolog=TPRO)
    run('mounts', mounts(T, fix), batch=200, prolog=MPRO)
    run('mounts asan', [x for x in mounts(False, fix) if x.n < 3 or T or x.key.split()[1] in ('Cu', 'Cd')], batch=150, prolog=MPRO, kind='asan')
    run('nested mounts', nested(T), batch=60, prolog=NPRO)
    ty = list(types(T))
    run('types', ty, batch=100, prolog=YPRO)
    run('types asan', [x for x in ty if x.n < (4 if T else 3)], batch=60, prolog=YPRO, kind='asan')
    run('contents', data(T, fix), batch=40, prolog=DPRO)
    run('channels', chan(T, fix), batch=400, prolog=VPRO)
    c.cov['states'] += sum(fam.values())
    c.cov['families'] = fam
    c.cov['exhaustive'] = True
    c.finish()


if __name__ == '__main__':
    main()
