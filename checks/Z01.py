"""Zip archives: what Zvfs.create and append put in is read back by every way of reading, by jsish through a mount and by Python's
zipfile; histories of operations on an archive; histories of reads and seeks; damaged archives and compressed texts."""
import datetime, io, itertools, json, os, shutil, stat, zipfile, zlib
from mc.core import Ctx, Case


def noise(n, s=1):
    b = bytearray()
    for _ in range(n):
        s = (s * 1103515245 + 12345) & 0x7fffffff
        b.append(s >> 16 & 255)
    return bytes(b)


def lines(n): return b''.join(b'line %d %s\n' % (i, b'x' * (i % 61)) for i in range(n))


def contents(T):
    o = [(k + str(n), f(n)) for n in (0, 1, 2, 3, 17, 100, 8190, 8191, 8192, 8193, 8194, 16383, 16384, 16385, 16386, 40000) + ((4095, 4096, 4097, 24576, 32767, 32768, 32769, 65535, 65536, 65537, 200000) if T else ())
         for k, f in (('z', lambda n: b'\0' * n), ('n', noise), ('t', lambda n: lines(n)[:n]), ('h', lambda n: bytes(0x80 + i % 128 for i in range(n))))]
    return o


def put(p, b, t=None, mode=0o644):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, 'wb') as f: f.write(b)
    os.chmod(p, mode)
    if t is not None: os.utime(p, (t, t))


def opened(d):
    for r, ds, fs in os.walk(d):
        os.chmod(r, 0o755)


PRO = r'''
function T(f) { try { var r=f(); if (typeof r==='undefined') r='U'; } catch(e) { r='X'; }; return r; }
function same(a:any, b:any):any { return typeof a===typeof b && (typeof a==='undefined' || a===b); }
'''


# --- histories of one channel, and of two on one archive, next to the same file outside of an archive.
CPRO = PRO + r'''
function op(c, o, sz) {
    if (o[0]==='r') return T(function() { return c.read(o[1]); });
    if (o[0]==='g') return T(function() { return c.gets(); });
    if (o[0]==='e') return T(function() { return c.tell()<sz ? c.eof() : false; });
    return T(function() { c.seek(o[1],o[2]); return 'S'; });
}
function hist(z, f, ops) {
    var sz=File.size(f), a=[], b=[], out='', k;
    for (var i in z) { a.push(new Channel(z[i])); b.push(new Channel(f)); }
    for (var o of ops) {
        k=o[o.length-1];
        var x=op(a[k],o,sz), y=op(b[k],o,sz);
        if (!same(x,y)) { out=JSON.stringify(o)+' gave '+JSON.stringify((''+x).substr(0,60))+' not '+JSON.stringify((''+y).substr(0,60)); break; }
        x=a[k].tell(); y=b[k].tell();
        if (!same(x,y)) { out=JSON.stringify(o)+' tell '+x+' not '+y; break; }
    }
    for (var i in z) { a[i].close(); b[i].close(); }
    puts(out);
}
'''


def channels(T, fix):
    small = b'ab\ncdefg\n\nxyz \x80\xfe\x00\n123'
    big = lines(400)[:20000]
    put(fix + '/small', small); put(fix + '/big', big)
    for m, n in ((0, 's'), (8, 'd')):
        with zipfile.ZipFile('%s/%s.zip' % (fix, n), 'w', m) as z:
            z.writestr('dir/', b''); z.writestr('small', small); z.writestr('dir/big', big); z.writestr('other', big)
        os.chmod('%s/%s.zip' % (fix, n), 0o644)
    for zn in 'sd':
        pro = "if (Zvfs.names().indexOf(File.pwd()+'/%s')<0) Zvfs.mount('%s/%s.zip','%s');\n" % (zn, fix, zn, zn)
        yield from channels_cases(T, fix, small, big, zn, zn + '.zip', pro)


def channels_cases(T, fix, small, big, root, label, pro):
    S = [['r', 1], ['r', 5], ['r', 100], ['g'], ['e'], ['s', 0, 'set'], ['s', 4, 'set'], ['s', len(small), 'set'], ['s', 2, 'cur'], ['s', -3, 'cur'], ['s', -1, 'end'], ['s', 0, 'end'], ['s', -100, 'cur'], ['s', -7, 'set']]
    B = [['r', 1], ['r', 8191], ['r', 8192], ['r', 8193], ['r', 50000], ['g'], ['e'], ['s', 0, 'set'], ['s', 8192, 'set'], ['s', 12000, 'set'], ['s', -8192, 'cur'], ['s', -1, 'cur'], ['s', -10, 'end'], ['s', 100, 'cur']]
    for name, A, f, size in (('small', S, 'small', len(small)), ('big', B, 'dir/big', len(big))):
        for n in range(1, (5 if T else 4) if name == 'small' else (4 if T else 3) + 1):
            for ops in itertools.product(A, repeat=n):
                if ops[-1][0] == 's' and n > 1 or any(a[0] == b[0] == 's' and b[2] != 'cur' for a, b in zip(ops, ops[1:])) or any(a[0] == 'e' == b[0] for a, b in zip(ops, ops[1:])): continue
                # A regular file goes past its end where one in an archive stays at the end: not compared.
                p, ok = 0, 1
                for o in ops:
                    if o[0] == 's' and o[2] == 'cur' and p + o[1] > size: ok = 0
                    if o[0] == 'r': p = min(size, p + o[1])
                    elif o[0] == 'g':
                        d = small if name == 'small' else big
                        q = d.find(b'\n', p); p = q + 1 if q >= 0 else size
                    elif o[0] == 's':
                        q = o[1] + {'set': 0, 'cur': p, 'end': size}[o[2]]
                        if q >= 0: p = q
                if not ok: continue
                js = json.dumps([o + [0] for o in ops])
                yield Case('%s in %s: %s' % (f, label, json.dumps(ops)), pro + "hist(['%s/%s'],'%s/%s',%s);" % (root, f, fix, name, js), '', len(ops))
    # two channels on one archive
    A2 = [['r', 5], ['g'], ['r', 9000], ['s', 3, 'set'], ['s', -4, 'end']]
    for ops in itertools.product([o + [k] for o in A2 for k in (0, 1)], repeat=4 if T else 3):
        if ops[0][-1] or all(o[-1] == 0 for o in ops): continue
        yield Case('two channels %s: %s' % (label, json.dumps(ops)), pro + "hist(['%s/dir/big','%s/%s'],'%s/big',%s);" % (root, root, 'other', fix, json.dumps(ops)), '', len(ops))


# --- operations on an archive
def ahistories(T, fix):
    """create, append, truncate, mount, unmount of one file that is at first missing, a program, or an archive of others."""
    put(fix + '/pre', b'#!/bin/prog\n\0 PK not an archive')
    with zipfile.ZipFile(fix + '/py.zip', 'w') as z:
        z.writestr(zipfile.ZipInfo('st/', (2001, 2, 3, 4, 5, 6)), b''); one = zipfile.ZipInfo('st/one'); one.comment = b'about this'; one.extra = b'\x99\x99\x02\x00ab'; z.writestr(one, b'stored one'); z.writestr('zwei', b'deflated ' * 50, 8)
    os.chmod(fix + '/py.zip', 0o644)
    PRE = {'none': (None, None), 'prog': (open(fix + '/pre', 'rb').read(), None), 'zip': (b'', {'st/': None, 'st/one': b'stored one', 'zwei': b'deflated ' * 50}), 'empty': (b'', None)}
    for i in range(6): put('%s/src/f%d' % (fix, i), lines(40 * i)[:700 * i]); put('%s/src/d%d/g' % (fix, i), noise(100 * i + 3))
    al = ['c', 'a', 'cb', 'ab', 't', 'tq', 'm', 'u', 'o', 'c0']
    for start in PRE:
        for n in range(1, (6 if T else 5)):
            for ops in itertools.product(al, repeat=n):
                if n > 3 and (ops[0] not in 'ca' or ops[-1] in ('o', 'tq', 'm')): continue
                if any(a == b and a not in ('c', 'a', 'm') for a, b in zip(ops, ops[1:])): continue
                pre, ent = PRE[start]
                ent = dict(ent) if ent is not None else None
                mnt, exp, src, bad, under = None, [], [], 0, []
                for i, o in enumerate(ops):
                    fl, add = "['f%d','d%d','d%d/g']" % (i, i, i), {'f%d' % i: lines(40 * i)[:700 * i], 'd%d/' % i: None, 'd%d/g' % i: noise(100 * i + 3)}
                    if o == 'c0': fl, add = '[]', {}
                    if o in ('cb', 'ab'): fl = "['f%d','nope']" % i
                    if o[0] in 'ca':
                        src.append("T(function() { Zvfs.%s('A',%s,S); return 1; })" % ('create' if o[0] == 'c' else 'append', fl))
                        if o[0] == 'a' and pre is None or o[0] == 'c' and ent is not None or o in ('cb', 'ab'): exp.append('X')
                        else:
                            if pre is None: pre = b''
                            void = ent == {}
                            if ent is None: ent = {}
                            if o[0] == 'a' and void and add: under.append(len(pre)); pre += b'-' * 22  # the empty table stays in front
                            ent.update(add); exp.append(1)
                    elif o in ('t', 'tq'):
                        if mnt is not None: bad = 1; break
                        src.append("T(function() { return Zvfs.truncate('A'%s); })" % (',true' if o == 'tq' else ''))
                        if pre is None: exp.append('X')
                        elif ent is None: exp.append(0 if o == 'tq' else 'X')
                        else:
                            exp.append(len(pre)); ent = None
                            if under: pre = pre[:under.pop()]; ent = {}
                    elif o == 'm':
                        src.append("T(function() { Zvfs.mount('A','M'); return 1; })")
                        if ent is None or mnt is not None: exp.append('X')
                        else: mnt = dict(ent); exp.append(1)
                    elif o == 'u':
                        src.append("T(function() { Zvfs.unmount('M'); return 1; })")
                        if mnt is None: exp.append('X')
                        else: mnt = None; exp.append(1)
                    else:
                        src.append("T(function() { return Zvfs.offset('A'); })")
                        exp.append('X' if ent is None else len(pre))
                if bad: continue
                def show(e): return None if e is None else [[k, -1 if v is None else len(v)] for k, v in sorted(e.items())]
                want = json.dumps([exp, show(mnt), show(ent), None if pre is None else len(pre) if ent is None else 'zip'], separators=(',', ':'))
                js = "var S='%s/src', o=[]; start('%s','%s');\n" % (fix, start, fix) + ''.join('o.push(%s);\n' % x for x in src) + "puts(look(o,%s,%s));" % ('true' if mnt is not None else 'false', json.dumps(sorted(k for k, v in {**(mnt or {}), **(ent or {})}.items() if v is not None)))
                yield Case('archive from %s: %s' % (start, ' '.join(ops)), js, want, n)


APRO = PRO + r'''
function start(k, fix) { if (File.exists('A')) File.remove('A'); if (k==='prog') File.copy(fix+'/pre','A'); if (k==='zip') File.copy(fix+'/py.zip','A'); if (k==='empty') File.write('A',''); }
function tree(m) {
    var fs=File.glob('*',{dir:m,recurse:true}).sort(), r=[], dirs=[];
    for (var f of fs) { var d=File.isdir(m+'/'+f); r.push([d?f+'/':f, d?-1:File.read(m+'/'+f).length===File.size(m+'/'+f)||f[0]==='d'?File.size(m+'/'+f):'bad']); if (d) r[r.length-1][1]=-1; }
    return r.sort(function(a,b) { return a[0]<b[0]?-1:1; });
}
function look(o, mounted, fs) {
    var m=null, l=null, s=null;
    if (mounted) { m=tree('M'); Zvfs.unmount('M'); }
    if (File.exists('A')) {
        s=File.size('A');
        var L=Zvfs.list('A').slice(1);
        var r=T(function() { Zvfs.mount('A','N'); return 1; });
        if (r===1) { s='zip'; l=tree('N'); Zvfs.unmount('N'); if (L.length!==l.length) l='list '+L.length; }
    }
    if (Zvfs.names().length>1) l='still mounted';
    return JSON.stringify([o,m,l,s]).replace(/ /g,'');
}
'''


def direct(c, T, fix):
    """Contents, names, times and modes: created by jsish and read by Python and through a mount; and the other way."""
    C = contents(T)
    d = c.workdir('z')
    times = [datetime.datetime(y, m, dd, h, mi, s, tzinfo=datetime.timezone.utc).timestamp() for y, m, dd, h, mi, s in
             [(1980, 1, 1, 0, 0, 0), (1999, 12, 31, 23, 59, 58), (2000, 2, 29, 12, 34, 56), (2024, 2, 29, 0, 0, 1), (2037, 7, 4, 1, 2, 3)] + [(2020, m, 28 + (m != 2) * 2, m, m * 4, m * 5 - 2) for m in range(1, 13)] + [(2021, 5, 6, 7, 8, s) for s in range(0, 60, 7)]]
    names = [n for n, _ in C]
    for i, (n, b) in enumerate(C): put('%s/in/%s' % (d, n), b, times[i % len(times)], [0o644, 0o444, 0o755, 0o664][i % 4])
    odd = ['a b.txt', 'x.tar.gz', '\u00e9\u4e2d.txt', 'n' * 200, 'deep/er/and/deeper/f', "q'uote", '-dash', 'UPPER', '.hid']
    for i, n in enumerate(odd): put('%s/in/%s' % (d, n), b'odd %d' % i, times[i % len(times)])
    opened(d)
    J = json.dumps
    sets = [[n] for n in names] + [[a, b] for a in names[::3] for b in names[1::4]] + [odd] + [['deep', 'deep/er', 'deep/er/and', 'deep/er/and/deeper', 'deep/er/and/deeper/f']] + [names]
    js = PRO + "var S=%s; for (var i in S) Zvfs.create('j'+i+'.zip',S[i],'in');\n" % J(sets)
    # Python's: stored, deflated, streamed (sizes after the data), with extra fields.
    class NoSeek(io.RawIOBase):
        def __init__(s, p): s.f = open(p, 'wb')
        def writable(s): return True
        def write(s, b): return s.f.write(b)
        def flush(s): s.f.flush()
        def seekable(s): return False
    psets = [[n] for n in names[::1 if T else 3]] + [names] + [odd]
    for i, s in enumerate(psets):
        for k in range(4):
            p = '%s/p%d_%d.zip' % (d, i, k)
            with zipfile.ZipFile(NoSeek(p) if k == 2 else p, 'w', 0 if k == 0 else 8) as z:
                for n in s:
                    b = open('%s/in/%s' % (d, n), 'rb').read()
                    zi = zipfile.ZipInfo(n, datetime.datetime.fromtimestamp(os.stat('%s/in/%s' % (d, n)).st_mtime, datetime.timezone.utc).timetuple()[:6])
                    zi.compress_type = 0 if k == 0 else 8
                    zi.external_attr = (0o100000 | os.stat('%s/in/%s' % (d, n)).st_mode & 0o777) << 16
                    if k == 3: zi.extra = b'\x99\x99\x04\x00abcd'; zi.comment = b'a comment ' * (len(n) % 3 + 1)
                    z.writestr(zi, b)
            os.chmod(p, 0o644)
    js += r'''
function chk(z, fs, big) {
    Zvfs.mount(z,'M');
    for (var f of fs) {
        var p='M/'+f, q='in/'+f;
        if (File.isdir(q)) { if (!File.isdir(p)) puts('BAD', z, f, 'no directory'); continue; }
        if (!File.exists(p) || !File.isfile(p) || File.isdir(p)) { puts('BAD', z, f, 'is missing'); continue; }
        var a=File.read(p), b=File.read(q);
        if (a!==b) puts('BAD', z, f, 'read');
        if (File.size(p)!==File.size(q)) puts('BAD', z, f, 'size', File.size(p));
        if (Math.floor(File.mtime(p)/2)!==Math.floor(File.mtime(q)/2)) puts('BAD', z, f, 'mtime', File.mtime(p)-File.mtime(q));
        if (File.perms(p)!==File.perms(q)) puts('BAD', z, f, 'perms', File.perms(p));
        var s=Zvfs.stat(p); if (s.size!==File.size(q)) puts('BAD', z, f, 'stat');
        if (big) continue;
        var c=new Channel(p), e=new Channel(q), x, y, n=0;
        while (1) { x=c.gets(); y=e.gets(); if (!same(x,y)) { puts('BAD', z, f, 'gets', n); break; }; if (typeof x==='undefined') break; n++; if (n>3000) { puts('BAD', z, f, 'no end'); break; } }
        c.close(); e.close();
        c=new Channel(p); e=new Channel(q); n=0;
        while (1) { x=c.read(1000); y=e.read(1000); if (!same(x,y)) { puts('BAD', z, f, 'read', n); break; }; if (typeof x==='undefined' || x==='') break; n++; if (n>300) { puts('BAD', z, f, 'no end'); break; } }
        c.close(); e.close();
    }
    Zvfs.unmount('M');
    var L=Zvfs.list(z).slice(1);
    for (var f of L) if (f[0].substr(-1)!=='/' && f[4]!==File.size('in/'+f[0])) puts('BAD', z, f[0], 'list');
    if (L.length!==fs.length) puts('BAD', z, 'list', L.length);
}
'''
    js += "for (var i in S) chk('j'+i+'.zip',S[i],S[i].length===2);\n"
    js += "var P=%s; for (var i in P) for (var k=0;k<4;k++) chk('p'+i+'_'+k+'.zip',P[i],false);\nputs('END');\n" % J(psets)
    rc, out, err = c.js(js, cwd=d, timeout=300)
    lines_ = out.decode('utf8', 'replace').split('\n')
    bad = [l for l in lines_ if l.startswith('BAD')]
    if rc != 0 or 'END' not in lines_: bad.append('rc %r %s' % (rc, err[-300:].decode('utf8', 'replace')))
    for i, s in enumerate(sets):
        p = '%s/j%d.zip' % (d, i)
        try:
            with zipfile.ZipFile(p) as z:
                if z.testzip(): bad.append('python: %s: bad data of %s' % (s[:3], z.testzip()))
                got = z.namelist()
                want = [n + '/' if os.path.isdir('%s/in/%s' % (d, n)) else n for n in s]
                if [g.encode('cp437', 'replace').decode('utf8', 'replace') if not z.getinfo(g).flag_bits & 0x800 else g for g in got] != want and got != want: bad.append('python: names %r for %r' % (got, want))
                for n, w in zip(got, s):
                    if n.endswith('/'): continue
                    q = '%s/in/%s' % (d, w)
                    zi = z.getinfo(n)
                    if z.read(n) != open(q, 'rb').read(): bad.append('python: contents of %s' % w)
                    t = datetime.datetime.fromtimestamp(os.stat(q).st_mtime, datetime.timezone.utc).timetuple()[:6]
                    if zi.date_time != t[:5] + (t[5] // 2 * 2,): bad.append('python: time of %s: %r not %r' % (w, zi.date_time, t))
                    if zi.external_attr >> 16 & 0o777 != os.stat(q).st_mode & 0o777: bad.append('python: mode of %s: %o' % (w, zi.external_attr >> 16))
        except Exception as e: bad.append('python: %r: %r' % (s[:3], e))
    n = len(sets) * 2 + len(psets) * 4
    c.cov['traces_validated_against_impl'] += n; c.cov['states'] += n; c.cov['transitions'] += sum(map(len, sets)) * 2 + sum(map(len, psets)) * 4
    if bad: c.report(Case('contents: ' + bad[0][:150], '', ''), '', '\n'.join(bad[:12]), js)
    shutil.rmtree(d, ignore_errors=True)


# --- damaged
DPRO = PRO + r'''
function walk(z, FIX) {
    var r=[], m;
    r.push(T(function() { return Zvfs.list(z).length; }));
    r.push(T(function() { return Zvfs.offset(z); }));
    if (T(function() { Zvfs.mount(z,'M'); return 1; })===1) {
        r.push(T(function() { return File.glob('*',{dir:'M',recurse:true}).length; }));
        for (var f of ['a','d/b','c']) { r.push(T(function() { return File.read('M/'+f).length; })); r.push(T(function() { return File.stat('M/'+f); })); r.push(T(function() { return Zvfs.stat('M/'+f); }));
            T(function() { var c=new Channel('M/'+f); for (var i=0;i<9;i++) if (typeof c.gets()==='undefined') break; c.seek(2,'set'); c.read(5); c.seek(-1,'end'); c.read(5); c.close(); }); }
        m=T(function() { Zvfs.unmount('M'); return 1; });
        if (m!==1) puts('unmount failed');
    }
    File.copy(z,'W',true); T(function() { Zvfs.append('W',['f1'],FIX+'/src'); }); T(function() { Zvfs.truncate('W'); });
    File.remove('W');
    if (Zvfs.names().length>1) puts('still mounted');
    Zvfs.mount(FIX+'/good.zip','G');
    if (File.read('G/a')!=='hello hello hello\n') puts('good one not read');
    Zvfs.unmount('G');
}
'''


def damaged(T, fix):
    b = io.BytesIO()
    with zipfile.ZipFile(b, 'w') as z:
        z.writestr('a', b'hello hello hello\n', 8); z.writestr('d/', b''); z.writestr('d/b', b'stored\nlines\n'); z.writestr('c', lines(30), 8)
    good = b.getvalue()
    put(fix + '/good.zip', good)
    var = []
    for i in range(len(good)): var.append(('cut to %d' % i, good[:i]))
    for i in range(len(good)):
        for v in {0, 255, good[i] ^ 1, good[i] ^ 128} | ({good[i] ^ 2, good[i] ^ 64, 127, 80} if T else set()):
            if v != good[i]: var.append(('byte %d = %d' % (i, v), good[:i] + bytes([v]) + good[i + 1:]))
    os.makedirs(fix + '/bad', exist_ok=True)
    for k, (n, d) in enumerate(var):
        put('%s/bad/%d' % (fix, k), d)
        yield Case('damaged archive, ' + n, "walk('%s/bad/%d','%s');" % (fix, k, fix), '', 12)


def flate(T, fix):
    J = json.dumps
    for n, b in contents(T):
        if len(b) > 66000: continue
        put('%s/fl/%s' % (fix, n), b); put('%s/fl/%s.z' % (fix, n), zlib.compress(b, 1 + len(b) % 9))
        yield Case('deflate and inflate ' + n, "var s=File.read('%s/fl/%s'); puts(Zvfs.inflate(Zvfs.deflate(s))===s, Zvfs.inflate(File.read('%s/fl/%s.z'))===s);" % (fix, n, fix, n), 'true true', 2)
    for q, s in (('lines', lines(4)), ('noise', noise(40)), ('long', lines(300))):
        z = zlib.compress(s)
        step = 1 if T or len(z) < 200 else 9
        put('%s/fl/%s' % (fix, q), s); put('%s/fl/%s.z' % (fix, q), z)
        for i in range(0, len(z), step):
            put('%s/fl/%s.%d' % (fix, q, i), z[:i])
            yield Case('inflate of %s cut to %d' % (q, i), "puts(T(function() { return Zvfs.inflate(File.read('%s/fl/%s.%d')); }));" % (fix, q, i), 'X' if i else None, 1) if i else Case('inflate of nothing', "T(function() { return Zvfs.inflate(''); });", '', 1)
            for v in (z[i] ^ 1, z[i] ^ 0x10, z[i] ^ 0x80, 255 - z[i]):
                put('%s/fl/%s.%d.%d' % (fix, q, i, v), z[:i] + bytes([v]) + z[i + 1:])
                yield Case('inflate of %s with byte %d = %d' % (q, i, v), "var r=T(function() { return Zvfs.inflate(File.read('%s/fl/%s.%d.%d')); }); puts(r==='X' || r===File.read('%s/fl/%s'));" % (fix, q, i, v, fix, q), 'true', 1)


ZPRO = PRO + r'''
require('Zip');
function zt(d) {
    if (!File.isdir(d)) return [];
    var r=[]; for (var f of File.glob('*',{dir:d,recurse:true}).sort()) if (!File.isdir(d+'/'+f)) r.push(f+':'+File.size(d+'/'+f));
    return r;
}
'''


def zexp(end, lists):
    def f(got):
        a, _, z = got.rpartition('\n=')
        l = [sorted(json.loads(x)) for x in a.split('\n') if x.startswith('[')]
        if z != end: return 'results and tree %r, not %r' % (z, end)
        if l != lists: return 'listed %r, not %r' % (l, lists)
    return f


def zipcmds(T, fix):
    """The commands of Zip.jsi one after the other in one program."""
    tr = {'1': {'a': 3, 'd/b': 70, 'd/e/c': 9000}, '2': {'x': 0, 'a': 20000}}
    for k, t in tr.items():
        for f, n in t.items(): put('%s/t%s/%s' % (fix, k, f), noise(n, 7))
    def show(t): return [f + ':%d' % n for f, n in sorted(t.items())]
    for n in range(1, 5 if T else 4):
        for ops in itertools.product(['z1', 'z2', 'l', 'u', 't'], repeat=n):
            st, out, exp, src, lists = None, {}, [], [], []
            for o in ops:
                if o[0] == 'z': src.append("['zip','Q.zip','%s/t%s']" % (fix, o[1])); st = tr[o[1]]; exp.append(0)
                elif o == 'l': 
                    src.append("['list','Q.zip']"); exp.append(0 if st else 'X')
                    if st: lists.append(sorted(set(st) | {f.rsplit('/', i)[0] for f in st for i in range(f.count('/') + 1)}))
                elif o == 'u':
                    src.append("['unzip','Q.zip','out']"); exp.append(0 if st else 'X')
                    if st: out.update(st)
                else: src.append("['trunc','Q.zip']"); exp.append(0 if st else 'X'); st = None if not st else {}
                if st == {}: st = False
            js = "if (File.exists('Q.zip')) File.remove('Q.zip'); if (File.isdir('out')) File.remove('out',true);\nvar r=[], p=puts; "
            js += ''.join("r.push(T(function() { return Zip(%s); }));\n" % x for x in src)
            js += "if (Zvfs.names().length>1) r.push('still mounted'); puts('\\n='+JSON.stringify([r,zt('out')]).replace(/ /g,''));"
            yield Case('Zip.jsi: ' + ' '.join(ops), js, zexp(json.dumps([exp, show(out)], separators=(',', ':')), lists), n)


def main():
    c = Ctx('Z01')
    T = c.thorough
    for k in ('states', 'transitions', 'traces_validated_against_impl'): c.cov.setdefault(k, 0)
    fix = os.path.join(c.scratch, 'fix')
    os.makedirs(fix)
    c.build('std'); c.build('asan')
    direct(c, T, fix)
    fam = {}
    def run(name, it, **kw):
        cs = list(it)
        opened(fix)
        fam[name] = len(cs)
        if not c.stop: c.run_cases(cs, **kw)
    run('channels', channels(T, fix), batch=400, prolog=CPRO)
    run('archives', ahistories(T, fix), batch=300, prolog=APRO)
    run('damaged', damaged(T, fix), batch=100, prolog=DPRO, kind='asan')
    run('commands', zipcmds(T, fix), batch=60, prolog=ZPRO)
    run('flate', flate(T, fix), batch=200, prolog=PRO)
    c.cov['states'] += sum(fam.values())
    c.cov['families'] = fam
    c.cov['exhaustive'] = True
    c.finish()


if __name__ == '__main__':
    main()
