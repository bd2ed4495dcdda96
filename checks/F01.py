"""File channels: every history of open, read, gets, write, puts, seek, tell, eof, flush, truncate, stat and close up to a depth
in each of the six modes against a model (bytes, position, end-of-file flag), with sizes around the buffer; every interleaving of
the operations of two channels on one file; compressed channels in chunks, cross-checked with Python's gzip and zlib; every
place where the disk can fill up while a channel, File.write or File.copy writes (RLIMIT_FSIZE); stdin and stdout."""
import itertools, os, zlib, gzip, resource, signal, subprocess, shutil
from mc.core import Ctx, Case, NOBODY, NCPU
from concurrent.futures import ThreadPoolExecutor


P182 = ''.join(chr(97 + i % 26) if i % 7 else chr(48 + (i // 7) % 10) for i in range(182))


def pat(n, k=0):
    """n bytes without newlines."""
    return (P182 * ((n + k) // 182 + 1))[k:k + n]


INIT = [None, '', 'ab\ncd', '\n\n', pat(8191) + '\n\0y\n\n' + pat(100, 5), pat(20000, 3) + '\ntail']
WR = {'0': '', '1': 'X', 'n': 'a\nb\0c\n', 'k': pat(8191, 1), 'L': pat(8193, 2) + '\n' + pat(11806, 4)}


def js(s):
    return '"' + s.replace('\n', '\\n').replace('\0', '\\u0000') + '"'


PROLOG = ('var PA=%s, P182=PA; while (PA.length<20200) PA+=P182;\n' % js(pat(182)) +
    'function pat(n,k=0) { return PA.substr(k,n); }\n'
    "var INIT=[null, '', \"ab\\ncd\", \"\\n\\n\", pat(8191)+\"\\n\\u0000y\\n\\n\"+pat(100,5), pat(20000,3)+\"\\ntail\"];\n"
    "var WR={'0':'', '1':'X', 'n':\"a\\nb\\u0000c\\n\", 'k':pat(8191,1), 'L':pat(8193,2)+\"\\n\"+pat(11806,4)};\n" r'''
function D(v:any) { if (typeof v=='undefined') return 'U'; if (typeof v!='string') return ''+v;
  return v.length+':'+Util.crc32(v); }
function C() { return new Channel('f'); }
function op(c:any, o:string) { var k=o[0], a=o.substr(1);
  switch (k) {
    case 'r': return D(c.read(Number(a)));
    case 'R': return D(c.read());
    case 'g': return D(c.gets());
    case 'w': return ''+c.write(WR[a]);
    case 'p': return ''+c.puts(WR[a]);
    case 's': return ''+c.seek(Number(a), 'set');
    case 'e': return ''+c.seek(Number(a), 'end');
    case 'c': return ''+c.seek(Number(a), 'cur');
    case 't': return ''+c.tell();
    case 'E': return ''+c.eof();
    case 'f': return ''+c.flush();
    case 'T': return ''+c.truncate(Number(a));
    case 'x': return ''+c.close();
    case 'o': return ''+c.open('f', a);
    case 'm': return ''+c.open('missing/f', a);
    case 'i': return D(c.mode())+D(c.filename());
    case 'v': return c.flush()+','+c.stat().size+','+c.lstat().size+','+D(File.read('f'));
  } return '?'; }
function try1(c:any, o:string) { var r; try { r=op(c,o); } catch(e) { r='!'; } return r; }
function setup(i) { if (i==0) { if (File.exists('f')) File.remove('f'); } else File.write('f', INIT[i]); }
function H(i, m:string, ops:string) { setup(i); var c, out=[];
  try { c=new Channel('f', m); } catch(e) { puts('X '+File.exists('f')); return; }
  var l=ops.split(' '); for (var j=0; j<l.length; j++) if (l[j]!='') out.push(try1(c, l[j]));
  out.push(try1(c,'t'), try1(c,'E'), try1(c,'x'));
  out.push(File.exists('f') ? D(File.read('f')) : 'none');
  puts(out.join(' ')); }
function H2(i, m1:string, m2:string, ops:string) { setup(i); var c=[new Channel('f',m1), new Channel('f',m2)], out=[];
  var l=ops.split(' '); for (var j=0; j<l.length; j++) out.push(try1(c[Number(l[j][0])], l[j].substr(1)));
  out.push(try1(c[0],'x'), try1(c[1],'x'), D(File.read('f'))); puts(out.join(' ')); }
''')


def D(v):
    if v is None: return 'U'
    return '%d:%d' % (len(v), zlib.crc32(v) & 0xffffffff)


def b(x): return 'true' if x else 'false'


class Model:
    """A file and one channel on it.  ANY marks what C leaves open."""
    def __init__(self, init):
        self.data = None if init is None else bytearray(init.encode())
        self.ch = None

    def open(self, m):
        self.ch = None
        if m not in ('r', 'w', 'a', 'r+', 'w+', 'a+'): return False
        if m[0] == 'r' and self.data is None: return False
        if m[0] == 'w' or self.data is None: self.data = bytearray()
        self.ch = m
        self.pos = len(self.data) if m == 'a' else 0
        self.eof = False
        self.tellok = True
        return True

    def seek(self, p):
        if p < 0: return '-1'
        self.pos, self.eof = p, False
        return '0'

    def write(self, s):
        if s and self.ch[0] == 'a': self.pos = len(self.data)
        if s and self.pos > len(self.data): self.data += bytes(self.pos - len(self.data))
        self.data[self.pos:self.pos + len(s)] = s
        self.pos += len(s)

    def op(self, o):
        k, a = o[0], o[1:]
        m = self.ch
        if k == 'o': return b(self.open(a))
        if k == 'm':
            self.ch = None
            return 'false'
        if k == 'x':
            self.ch = None
            return 'true'
        if k == 'i': return 'UU' if m is None else D(m.encode()) + D(b'f')
        if m is None: return {'r': 'U', 'R': 'U', 'g': 'U', 'w': '0', 'p': 'false'}.get(k, '!')
        rd, wr = m[0] == 'r' or '+' in m, m[0] != 'r' or '+' in m
        if k in 'rR':
            n = int(a) if k == 'r' else 10 ** 9
            if n == 0 or not rd: return 'U'
            s = bytes(self.data[self.pos:self.pos + n])
            if len(s) < n: self.eof = True
            self.pos += len(s)
            return D(s) if s else 'U'
        if k == 'g':
            if not rd: return 'U'
            s = bytes(self.data[self.pos:])
            i = s.find(b'\n')
            if i >= 0:
                self.pos += i + 1
                return D(s[:i])
            self.pos += len(s)
            self.eof = True
            return D(s) if s else 'U'
        if k in 'wp':
            s = WR[a].encode() + (b'\n' if k == 'p' else b'')
            if not wr: return '0' if k == 'w' else 'false'
            if self.eof and s: self.eof = None        # C says nothing about the flag here
            self.write(s)
            return '%d' % len(s) if k == 'w' else 'true'
        if k in 'sec':
            r = self.seek(int(a) + {'s': 0, 'e': len(self.data), 'c': self.pos}[k])
            if r == '-1' and self.eof: self.eof = None
            return r
        if k == 't': return '%d' % self.pos
        if k == 'E': return '?' if self.eof is None else b(self.eof)
        if k == 'f':
            return '0'
        if k == 'T':
            if not wr: return '-1'
            n = int(a)
            self.data = self.data[:n] + bytes(max(0, n - len(self.data)))
            return '0'
        if k == 'v':
            n = len(self.data)
            return '0,%d,%d,%s' % (n, n, D(bytes(self.data)))


def expect(toks):
    e = ' '.join(toks)
    if '?' not in toks: return e

    def f(got):
        g = got.split(' ')
        if len(g) == len(toks) and all(x == '?' or x == y for x, y in zip(toks, g)): return None
        return 'expected %.300r got %.300r' % (e, got)
    return f


def history(i, m, ops):
    mo = Model(INIT[i])
    if not mo.open(m): return Case('%s on content %d' % (m, i), 'H(%d,"%s","");' % (i, m), 'X %s' % b(mo.data is not None))
    toks = []
    for o in ops:
        if o[0] == 'T' and mo.ch and mo.eof is not False and int(o[1:]) > len(mo.data): return None     # data appears behind the end-of-file flag
        toks.append(mo.op(o))
    toks += [mo.op('t'), mo.op('E'), mo.op('x'), 'none' if mo.data is None else D(bytes(mo.data))]
    return Case('content %d mode %s: %s' % (i, m, ' '.join(ops)), 'H(%d,"%s","%s");' % (i, m, ' '.join(ops)), expect(toks), n=len(toks))


MODES = ['r', 'w', 'a', 'r+', 'w+', 'a+']
FULL = ['r0', 'r1', 'r4', 'r8192', 'r9000', 'R', 'g', 'w0', 'w1', 'wn', 'wk', 'wL', 'p0', 'p1', 'pn', 's0', 's2', 's9', 's8192', 's-1', 'e0', 'e-1', 'e3', 'c-1', 'c2',
        't', 'E', 'f', 'T0', 'T2', 'T9000', 'x', 'or', 'ow', 'oa', 'or+', 'oq', 'mr', 'i', 'v', 's4294967301', 'c2147483648']
CORE = ['r1', 'r9000', 'R', 'g', 'w1', 'wk', 'p1', 's2', 's8192', 'e-1', 'c-1', 'f', 'T2', 'x', 'or', 'v']


def sane(ops):
    """Sparse files of more than 2 GB are only measured, not written."""
    if any(o in ops for o in ('s4294967301', 'c2147483648')):
        return not any(o[0] in 'wp' or o in ('T0',) for o in ops)
    return True


def histories(deep):
    for m in MODES:
        for i in range(len(INIT)):
            yield history(i, m, ())
            if i == 0 and m[0] == 'r': continue
            for d in (1, 2):
                for ops in itertools.product(FULL, repeat=d):
                    if sane(ops): yield history(i, m, ops)
            if i in (2, 4) or deep:
                for ops in itertools.product(FULL if deep else CORE, repeat=3):
                    if sane(ops): yield history(i, m, ops)
            if deep and i in (2, 4):
                for ops in itertools.product(CORE, repeat=4): yield history(i, m, ops)


# ------------------------------------------------------------------ two channels on one file
def two(deep):
    """Writes stay with their channel until it is flushed or closed; each goes to its own place (append: to the end)."""
    al = ['0w1', '1wn', '0f', '1f', '0x', '1x', '0T2', '1p1']
    for m1, m2 in (('a', 'a'), ('a', 'r+'), ('r+', 'r+'), ('w', 'a'), ('a+', 'w'), ('r+', 'a')):
        for i in (1, 2):
            for d in range(1, 6 if deep else 5):
                for ops in itertools.product(al, repeat=d):
                    data = bytearray(INIT[i].encode())
                    if 'w' in m1 or 'w' in m2: data = bytearray()
                    st = [{'m': m, 'pos': 0, 'buf': b''} for m in (m1, m2)]
                    if m1[0] == 'w': pass
                    op = [True, True]

                    def flush(n):
                        c = st[n]
                        if not c['buf']: return
                        if c['m'][0] == 'a': c['pos'] = len(data)
                        if c['pos'] > len(data): data.extend(bytes(c['pos'] - len(data)))
                        data[c['pos']:c['pos'] + len(c['buf'])] = c['buf']
                        c['pos'] += len(c['buf'])
                        c['buf'] = b''
                    toks = []
                    for o in ops:
                        n, k, a = int(o[0]), o[1], o[2:]
                        if k == 'x':
                            if op[n]: flush(n)
                            op[n] = False
                            toks.append('true')
                        elif not op[n]: toks.append({'w': '0', 'p': 'false'}.get(k, '!'))
                        elif k in 'wp':
                            s = WR[a].encode() + (b'\n' if k == 'p' else b'')
                            st[n]['buf'] += s
                            toks.append('%d' % len(s) if k == 'w' else 'true')
                        elif k == 'f':
                            flush(n)
                            toks.append('0')
                        elif k == 'T':
                            flush(n)
                            data[:] = data[:int(a)] + bytes(max(0, int(a) - len(data)))
                            toks.append('0')
                    for n in (0, 1):
                        if op[n]: flush(n)
                        toks.append('true')
                    toks.append(D(bytes(data)))
                    yield Case('%s and %s on content %d: %s' % (m1, m2, i, ' '.join(ops)), 'H2(%d,"%s","%s","%s");' % (i, m1, m2, ' '.join(ops)), ' '.join(toks), n=len(toks))


# ------------------------------------------------------------------ compressed channels
ZPRO = PROLOG + r'''
var Q=''; for (var i=0, q=1; i<20000; i++) { q=(q*1103+12345)%65536; Q+=String.fromCharCode(32+q%95); }
var ZW={e:'', a:'a', n:"x\n\ny", k:pat(8192), L:pat(20000), q:Q.substr(0,8193), Q:Q};
function Z(mw:string, ws:string, rs:string) { var c=new Channel('z', mw), out=[];
  var l=ws.split(' '), i; for (i=0; i<l.length; i++) if (l[i]=='f') out.push(c.flush()); else if (l[i][0]=='p') out.push(c.puts(ZW[l[i][1]])); else if (l[i]!='') out.push(c.write(ZW[l[i]]));
  out.push(c.read(1)===undefined, c.close());
  c=new Channel('z', 'r'+mw.substr(1)); l=rs.split(' ');
  for (i=0; i<l.length; i++) { if (l[i]=='g') out.push(D(c.gets())); else if (l[i]=='R') out.push(D(c.read())); else if (l[i]=='E') out.push(c.eof()); else out.push(D(c.read(Number(l[i])))); }
  out.push(c.write('x'), c.close());
  puts(out.join(' ')); }
function ZR(f, m, n) { var c=new Channel(f, m), s='', t; while (typeof (t=c.read(n))!='undefined') s+=t; puts(D(s), c.eof(), c.close()); }
'''


def zdata():
    q, Q = 1, ''
    for i in range(20000):
        q = (q * 1103 + 12345) % 65536
        Q += chr(32 + q % 95)
    return {'e': '', 'a': 'a', 'n': 'x\n\ny', 'k': pat(8192), 'L': pat(20000), 'q': Q[:8193], 'Q': Q}


def zcase(mode, ws, rs, ZW):
    data, toks = b'', []
    for w in ws:
        if w == 'f': toks.append('0')
        elif w[0] == 'p':
            data += ZW[w[1]].encode() + b'\n'
            toks.append('true')
        else:
            data += ZW[w].encode()
            toks.append('%d' % len(ZW[w]))
    toks += ['true', 'true']
    p, eof = 0, False
    for r in rs:
        if r == 'E': toks.append(b(eof))
        elif r == 'g':
            i = data.find(b'\n', p)
            s = data[p:i] if i >= 0 else data[p:]
            if i < 0: eof = True
            toks.append(D(s) if s or i >= 0 else 'U')
            p = i + 1 if i >= 0 else len(data)
        else:
            n = 10 ** 9 if r == 'R' else int(r)
            s = data[p:p + n]
            if len(s) < n: eof = True
            p += len(s)
            toks.append(D(s) if s else 'U')
    toks += ['0', 'true']
    return Case('compressed %s: %s then %s' % (mode, ' '.join(ws), ' '.join(rs)), 'Z("%s","%s","%s");' % (mode, ' '.join(ws), ' '.join(rs)), ' '.join(toks), n=len(toks))


def zcases(deep):
    ZW = zdata()
    wa = ['e', 'a', 'pn', 'k', 'L', 'q', 'Q', 'f']
    ra = [('R', 'E', 'R'), ('1', 'R', 'E'), ('g', 'g', 'E', 'R'), ('8192', '8192', 'E', '8192', '20000', 'R'), ('9000', 'g', '1', 'g', 'R'), ('100000', 'E', '1')]
    for mode in ('wz', 'wZ', 'wz9', 'wz1', 'wZ6'):
        for d in range(0, 4 if deep or mode == 'wz' else 3):
            for ws in itertools.product(wa, repeat=d):
                for rs in ra if d < 3 or deep else ra[:2]:
                    yield zcase(mode, ws, rs, ZW)


def interop(c):
    """What jsish compresses, Python reads, and the other way round; damaged files raise no other data."""
    ZW = zdata()
    d = c.workdir('z')
    todo, src = [], ZPRO
    k = 0
    for mode in ('wz', 'wZ', 'wz1', 'wz9'):
        for dd in range(0, 3):
            for ws in itertools.product(['a', 'n', 'k', 'L', 'q', 'Q'], repeat=dd):
                k += 1
                src += 'var c=new Channel("o%d","%s"); %s c.close();\n' % (k, mode, ' '.join('c.write(ZW.%s);' % w for w in ws))
                todo.append((k, mode, ''.join(ZW[w] for w in ws).encode()))
    rc, out, err = c.js(src, cwd=d, timeout=100)
    for k, mode, data in todo:
        try:
            raw = open(os.path.join(d, 'o%d' % k), 'rb').read()
            got = gzip.decompress(raw) if 'z' in mode else zlib.decompress(raw)
        except Exception as e:
            got = repr(e).encode()
        c.cov['transitions'] += 1
        c.cov['traces_validated_against_impl'] += 1
        if got != data:
            c.report(Case('interop %s %d bytes' % (mode, len(data)), '', ''), D(got), 'Python reads %s instead of %s' % (D(got), D(data)), src)
    # the other direction
    src, exp = ZPRO, []
    k = 0
    for n in (0, 1, 2, 100, 8191, 8192, 8193, 20000):
        for src_data in (ZW['L'], ZW['Q']):
            for fmt in 'zZ':
                for lv in (1, 6, 9):
                    data = src_data[:n].encode()
                    co = zlib.compressobj(lv, zlib.DEFLATED, 15)
                    z = co.compress(data) + co.flush()
                    raw = gzip.compress(data, lv, mtime=0) if fmt == 'z' else z
                    for step in (1, 7, 8192, 30000):
                        if step < 8192 and n > 200: continue
                        k += 1
                        open(os.path.join(d, 'i%d' % k), 'wb').write(raw)
                        src += 'ZR("i%d","r%s",%d);\n' % (k, fmt, step)
                        exp.append(D(data) + ' true true')
    rc, out, err = c.js(src, cwd=d, timeout=100)
    got = out.decode('latin1').split('\n')
    for i, e in enumerate(exp):
        g = got[i] if i < len(got) else '(nothing)'
        c.cov['transitions'] += 1
        c.cov['traces_validated_against_impl'] += 1
        if g != e:
            c.report(Case('reading compressed file %d' % (i + 1), '', ''), g, 'expected %s got %s' % (e, g), src)
            break
    shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------ a disk that fills up
FPRO = PROLOG + r'''
function W(m:string, ops:string) { var ok=true, r, c=new Channel('f', m), l=ops.split(' '), n=0;
  for (var i=0; i<l.length; i++) { r=try1(c, l[i]);
    if (l[i][0]=='w') { if (r!=''+WR[l[i][1]].length) ok=false; } else if (l[i][0]=='p') { if (r!='true') ok=false; } else if (l[i]=='x') { if (r!='true') ok=false; } else if (r!='0') ok=false; }
  if (try1(c,'x')!='true') ok=false;
  return ok; }
function ROW(k, m:string, ops:string) { if (File.exists('f')) File.remove('f'); var ok; try { ok=W(m,ops); } catch(e) { ok=false; } puts('@'+k+' '+ok+' '+D(File.read('f'))+' '+File.read('f').length); }
function FW(k, n) { if (File.exists('f')) File.remove('f'); var ok=true, l=0; try { File.write('f', pat(n)); } catch(e) { ok=false; } puts('@'+k+' '+ok+' '+(File.exists('f')?D(File.read('f')):D(''))+' '+(File.exists('f')?File.read('f').length:0)); }
function FC(k, n) { if (File.exists('f')) File.remove('f'); var ok=true; try { File.copy('s'+n, 'f'); } catch(e) { ok=false; } puts('@'+k+' '+ok+' '+(File.exists('f')?D(File.read('f')):D(''))+' '+(File.exists('f')?File.read('f').length:0)); }
'''


def fill(c, deep):
    al = ['w1', 'wn', 'wk', 'wL', 'p1', 'f', 's0', 'T2']
    rows = []
    for m in ('w', 'a', 'w+'):
        for d in range(1, 4):
            for ops in itertools.product(al, repeat=d):
                if not any(o[0] in 'wp' for o in ops): continue
                mo = Model(None)
                mo.open(m)
                seq = all(o[0] not in 'sT' for o in ops)
                for o in ops:
                    if mo.op(o) is None: pass
                rows.append(('%s %s' % (m, ' '.join(ops)), 'ROW(%%d,"%s","%s");' % (m, ' '.join(ops)), bytes(mo.data), seq))
    sizes = [0, 1, 100, 4095, 4096, 4097, 8192, 20000]
    for n in sizes:
        rows.append(('File.write %d' % n, 'FW(%%d,%d);' % n, pat(n).encode(), True))
        rows.append(('File.copy %d' % n, 'FC(%%d,%d);' % n, pat(n).encode(), True))
    limits = [0, 1, 2, 7, 100, 4095, 4096, 4097, 8190, 8191, 8192, 8193, 12288, 16384, 20000]
    if deep: limits = sorted(set(limits + list(range(0, 12)) + list(range(4090, 4103)) + list(range(8180, 8215)) + [i * 512 for i in range(40)] + [19999, 20001, 20002]))
    text = FPRO + '\n'.join(r[1] % i for i, r in enumerate(rows)) + '\n'
    jsi = os.path.join(c.build('std'), 'jsish')
    sh = 'ulimit -S -c 0; trap "" XFSZ; exec prlimit --fsize=%d "$0" "$1"'

    def one(lim):
        d = c.workdir('f')
        os.chmod(d, 0o755)
        for n in sizes: open(os.path.join(d, 's%d' % n), 'w').write(pat(n))
        open(os.path.join(d, 't.jsi'), 'w').write(text)
        rc, out, err = c.exec(['/bin/sh', '-c', sh % lim, jsi, os.path.join(d, 't.jsi')], d, 120)
        shutil.rmtree(d, ignore_errors=True)
        return rc, out
    c.cov['fault_points'] = len(limits)
    with ThreadPoolExecutor(NCPU) as ex:
        for lim, (rc, out) in zip(limits, ex.map(one, limits)):
            got = {}
            for ln in out.decode('latin1').split('\n'):
                if ln.startswith('@'):
                    k, r = ln[1:].split(' ', 1)
                    got[int(k)] = r
            for i, (key, src, data, seq) in enumerate(rows):
                if c.stop: return
                c.cov['transitions'] += 1
                c.cov['traces_validated_against_impl'] += 1
                g = got.get(i)
                bad = None
                if g is None: bad = 'no result (rc %s)' % rc
                else:
                    ok, dg, n = g.split(' ')[0], ' '.join(g.split(' ')[1:-1]), int(g.split(' ')[-1])
                    if ok == 'true' and dg != D(data): bad = 'no operation failed, but the file holds %s instead of %s' % (dg, D(data))
                    elif seq and dg != D(data[:n]): bad = 'the file holds %s, which is not the start of what was written (%s)' % (dg, D(data[:n]))
                    elif len(data) <= lim and seq and ok != 'true': bad = 'an operation failed though there was room'
                    c.outcomes.add(hash(g))
                if bad:
                    c.report(Case('room for %d bytes: %s' % (lim, key), '', ''), g, bad, FPRO + src % 0 + '\n',
                             extra='run as: sh -c \'%s\' /repo/_build/copy-of-*/jsish FILE' % (sh % lim))


# ------------------------------------------------------------------ stdin, stdout
def std_order():
    fs = {'p': ("puts('P');", 'P\n'), 'o': ("o.puts('O');", 'O\n'), 'w': ("o.write('w');", 'w'), 'f': ("printf('%s','f');", 'f'), 'F': ('o.flush();', ''), 'c': ("o.close(); o.open('stdout','w');", '')}
    for d in range(1, 5):
        for ops in itertools.product(fs, repeat=d):
            e = ''.join(fs[o][1] for o in ops)
            yield Case('stdout: ' + ' '.join(ops), "var o=new Channel('stdout','w'); " + ''.join(fs[o][0] for o in ops) + " o.puts(''); o.close();", e, n=d)


def stdin_cases(c):
    texts = [b'', b'a', b'a\n', b'\n', b'\n\n', b'a\nb', b'a\0b\nc\n', pat(8191).encode() + b'\nx', pat(20000).encode() + b'\n\n', b'\xc3\xa9\n']
    progs = {
        'channel gets': ("var c=new Channel('stdin'), l; while (typeof (l=c.gets())!='undefined') puts(D(l));", 'lines'),
        'channel read': ("var c=new Channel('stdin'), l=c.read(); puts(D(l));", 'all'),
        'channel read 7': ("var c=new Channel('stdin'), l, s=''; while (typeof (l=c.read(7))!='undefined') s+=l; puts(D(s));", 'alls'),
        'console.input': ("var l; while (typeof (l=console.input())!='undefined') puts(D(l));", 'lines'),
    }
    jsi = os.path.join(c.build('std'), 'jsish')
    for t in texts:
        for name, (src, kind) in progs.items():
            if kind == 'lines':
                ls = t.split(b'\n')
                if ls[-1] == b'': ls.pop()
                if name == 'console.input' and (b'\0' in t or any(len(x) > 1000 for x in ls)): continue
                exp = ''.join(Dl(x) + '\n' for x in ls)
            else: exp = (Dl(t) if t or kind == 'alls' else 'U') + '\n'
            d = c.workdir('i')
            open(os.path.join(d, 't.jsi'), 'w').write(PROLOG + src + '\n')
            rc, out, err = c.exec([jsi, os.path.join(d, 't.jsi')], d, 60, stdin=t)
            shutil.rmtree(d, ignore_errors=True)
            c.cov['transitions'] += 1
            c.cov['traces_validated_against_impl'] += 1
            if out != exp.encode():
                c.report(Case('stdin %s of %d bytes' % (name, len(t)), '', ''), out[:200].decode('latin1'), 'expected %r got %r' % (exp[:200], out[:200]), PROLOG + src)


def Dl(v):
    return '%d:%d' % (len(v.decode('utf8', 'replace')), zlib.crc32(v) & 0xffffffff)


def main():
    c = Ctx('F01')
    c.run_cases((x for x in histories(c.thorough) if x), batch=1500, prolog=PROLOG)
    c.run_cases(two(c.thorough), batch=1500, prolog=PROLOG)
    c.run_cases(zcases(c.thorough), batch=300, prolog=ZPRO)
    interop(c)
    fill(c, c.thorough)
    c.run_cases(std_order(), batch=300, prolog=PROLOG)
    stdin_cases(c)
    c.cov['bounds'] = 'histories of depth %d over %d operations, 6 modes, %d contents' % (3, len(FULL), len(INIT))
    c.assumptions += ['a full disk is modelled with RLIMIT_FSIZE: a write stores what fits and the next fails']
    c.finish()


if __name__ == '__main__':
    main()
