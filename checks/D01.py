"""Transactions of the Sqlite object: every small tree of nested transactions, failures and exceptions against a snapshot
model; two connections on one file; the process ended, or an I/O error, at every call that changes the files."""
import itertools, os, sqlite3, subprocess, shutil
from concurrent.futures import ThreadPoolExecutor
from mc.core import Ctx, Case, VERIF, NCPU

PROLOG = r'''
var db, L, N, VETO, D = {B:null};
File.write('g.csv', '101,x\n102,y\n'); File.write('b.csv', '103,x\n104\n');
function V(d) { return d.query('select a from t order by a', {mode:'array1d'}).join(','); }
function ITEM(k) {
  var x = N;
  if (typeof k == 'array') {
    var f = function() { RUNB(k[2]); };
    switch (k[0]) {
    case 'T': if (k[1]) db.transaction(f, k[1]); else db.transaction(f); break;
    case 'C': try { if (k[1]) db.transaction(f, k[1]); else db.transaction(f); L.push('ok'); } catch(e) { L.push('E'); } break;
    case 'R': db.query('select a from z', function(r) { RUNB(k[2]); return true; }); break;
    }
    return;
  }
  switch (k) {
  case 'w': N++; db.eval('insert into t values('+x+')'); break;
  case 'q': N++; db.query('insert into t values(:x)'); break;
  case 'm': N++; try { db.eval('insert into t values('+x+'); insert into t values('+x+')'); } catch(e) { L.push('e'); } break;
  case 'f': db.eval('insert into t values(1)'); break;
  case 'F': try { db.query('insert into t values(1)'); } catch(e) { L.push('e'); } break;
  case 't': throw 'stop'; break;
  case 'o': try { db.eval('insert or rollback into t values(1)'); } catch(e) { L.push('e'); } break;
  case 'i': db.import('u', 'g.csv', {csv:true}); break;
  case 'b': try { db.import('u', 'b.csv', {csv:true}); } catch(e) { L.push('e'); } break;
  case 'v': L.push(V(db)); break;
  case 'd': db.eval('delete from t where a=(select max(a) from t)'); break;
  }
}
function RUNB(b) { for (var i=0; i<b.length; i++) ITEM(b[i]); }
function RUN(b, veto, file) {
  db = new Sqlite(file); L = []; N = 2; VETO = 0;
  db.eval('create table t(a integer primary key); create table u(a,b); create table z(a); insert into t values(1); insert into z values(1),(2);');
  if (veto) { VETO = veto; db.conf({onCommit:function(db) { return --VETO == 0; }}); }
  for (var i=0; i<b.length; i++) { try { ITEM(b[i]); L.push('ok'); } catch(e) { L.push('E'); } }
  try { db.conf({onCommit:null}); db.eval('begin; rollback'); } catch(e) { L.push('OPEN'); }
  puts(L.join(' '), V(db), '/', db.query('select a from u', {mode:'array1d'}).join(','));
}
'''


class Err(Exception): pass


class Model:
    def __init__(self, veto):
        self.t = [1]; self.u = []; self.n = 2; self.L = []; self.depth = 0; self.veto = veto; self.wrote = False; self.steps = 0; self.lost = False

    def commit(self):
        """A write transaction is about to commit: True if the hook lets it."""
        if self.veto == 0: return True
        self.veto -= 1
        if self.veto == 0: return False
        return True

    def stmt(self, f):
        """One statement: alone it is its own transaction."""
        if self.lost: raise Err
        snap = self.t[:], self.u[:]
        self.wrote = True
        f()
        if self.depth == 0 and not self.commit():
            self.t, self.u = snap
            raise Err
    def ins(self, x):
        def f():
            if x in self.t: raise Err
            self.t.append(x)
        self.stmt(f)

    def item(self, k):
        self.steps += 1
        x = self.n
        if not isinstance(k, str):
            if k[0] == 'R':
                if self.lost: raise Err
                for i in k[2]: self.item(i)
                return
            try: self.trans(k[1], k[2])
            except Err:
                if k[0] == 'T': raise
                self.L.append('E')
            else:
                if k[0] == 'C': self.L.append('ok')
            return
        if k == 'w' or k == 'q': self.n += 1; self.ins(x)
        elif k == 'm':
            self.n += 1
            try: self.ins(x); self.ins(x)
            except Err: self.L.append('e')
        elif k == 'f': self.ins(1)
        elif k == 'F':
            try: self.ins(1)
            except Err: self.L.append('e')
        elif k == 't': raise Err
        elif k == 'i': self.stmt(lambda: self.u.extend([101, 102]))
        elif k == 'b': self.L.append('e')
        elif k == 'o':
            self.L.append('e')
            if self.depth and not self.lost: self.lost = True; self.t, self.u = self.top
        elif k == 'v':
            if self.lost: raise Err
            self.L.append(','.join(map(str, sorted(self.t))))
        elif k == 'd':
            def f():
                if self.t: self.t.remove(max(self.t))
            self.stmt(f)

    def trans(self, ty, body):
        if self.lost: raise Err
        snap = self.t[:], self.u[:]
        if self.depth == 0: self.top = self.t[:], self.u[:]; self.wrote = bool(ty) and ty != 'deferred'
        self.depth += 1
        try:
            for i in body: self.item(i)
        except Err:
            self.depth -= 1
            if not self.lost: self.t, self.u = snap
            if self.depth == 0: self.lost = False
            raise
        self.depth -= 1
        if self.lost:
            if self.depth == 0: self.lost = False
            raise Err
        if self.depth == 0 and self.wrote and not self.commit():
            self.t, self.u = snap
            raise Err

    def run(self, b):
        for i in b:
            try: self.item(i); self.L.append('ok')
            except Err: self.L.append('E')
        return '%s %s / %s' % (' '.join(self.L), ','.join(map(str, sorted(self.t))), ','.join(map(str, self.u)))


def js(b):
    return '[' + ', '.join("'%s'" % i if isinstance(i, str) else "['%s', '%s', %s]" % (i[0], i[1], js(i[2])) for i in b) + ']'


def show(b):
    return ' '.join(i if isinstance(i, str) else '%s%s(%s)' % (i[0], ':' + i[1] if i[1] else '', show(i[2])) for i in b)


def bodies(items, lens=(0, 1, 2)):
    for n in lens:
        yield from itertools.product(items, repeat=n)


def tree(b, veto=0, file=None):
    m = Model(veto)
    exp = m.run(b)
    return Case('tree %s%s%s' % (show(b), ' veto %d' % veto if veto else '', ' file' if file else ''), 'RUN(%s, %d, %s);' % (js(b), veto, "'%s'" % file if file else 'null'), exp, n=m.steps)


def trees(T):
    leaf = 'w q m f F t i b v d o'.split() if T else 'w m f F t i v o'.split()
    l2 = 'w F t b v o'.split()
    # two levels, every type outside
    inner = [(k, '', b) for k in 'TC' for b in bodies(leaf if T else l2)]
    for ty in ('', 'deferred', 'immediate', 'exclusive'):
        for k in 'TC':
            for b in bodies(leaf + [i for i in inner if T or len(i[2]) < 2]): yield tree(((k, ty, b), 'v'))
    # every type inside and outside, in a callback of a query, and one transaction after another
    for b in bodies(leaf):
        for t1 in ('', 'deferred', 'immediate', 'exclusive'):
            for t2 in ('', 'deferred', 'immediate', 'exclusive'):
                yield tree((('T', t1, ('w', ('C', t2, b), 'v')), ('T', t2, b)))
        for k in 'TC':
            for w in (('R', '', ((k, '', b), 'w')), (k, '', (('R', '', b), 'w')), (k, '', (('R', '', ((k, '', b),)), 'w')), ('R', '', (('R', '', ((k, '', b),)), 'v')), ('R', '', b)):
                yield tree((w, 'w', ('T', '', ('w', 'v'))))
                yield tree((('C', '', (w, 'v')), 'd'))
    for a in bodies(l2):
        for b in bodies(l2):
            yield tree((('T', '', a), ('T', '', b), 'v'))
    # three and more levels
    t1 = [(k, '', b) for k in 'TC' for b in bodies(('w', 'F', 't', 'o') if T else ('w', 't'))]
    t2 = [(k, '', b) for k in 'TC' for b in bodies((['w', 't', 'v'] if T else ['w', 't']) + t1, (1, 2) if T else (1,))]
    for i in t2:
        for b in ((i,), ('w', i), (i, 'w'), (i, 'v', 't')): yield tree((('T', '', b), 'v'))
    for n in list(range(3, 12)) + [40]:
        for cut in range(-1, n):
            b = ('w',)
            for lv in range(n): b = ('w', ('C' if lv == cut else 'T', '', b + (('t',) if lv == 0 else ())), 'w')
            yield tree((('C', '', b), 'v'))
    # the n-th commit refused by onCommit
    for veto in (1, 2, 3):
        for b in bodies('w m F t i d'.split()):
            yield tree(b, veto)
            for ty in ('', 'deferred', 'immediate', 'exclusive'):
                for k in 'TC': yield tree(((k, ty, b), 'w', (k, ty, ('w', ('T', '', b)))), veto)
    # file database
    for b in bodies(leaf): yield tree((('C', 'immediate', b + (('C', '', b),)), 'v', 'w'), file='f%d.db' % next(fno))


fno = itertools.count()

# ---------------------------------------------------------------- two connections
PRO2 = r'''
var D, L, N;
function IT(k) {
  if (typeof k == 'array') { var d = D[k[0]], f = function() { for (var i=0; i<k[2].length; i++) TRY(k[2][i]); if (k[3]) throw 'x'; };
    if (k[1]) d.transaction(f, k[1]); else d.transaction(f); return; }
  var d = D[k[0]], x = ++N;
  if (k[1] == 'w') d.query('insert into t values(:x)');
  else L.push(d.query('select a from t order by a', {mode:'array1d'}).join(','));
}
function TRY(k) { try { IT(k); L.push(typeof k == 'array' ? k[0] : k); } catch(e) { L.push('E'); } }
function TWO(j, b, f) { L = []; N = 0;
  D = {A:new Sqlite(f), B:null}; D.A.query('pragma journal_mode='+j); D.A.eval('pragma synchronous=0; create table t(a);'); D.B = new Sqlite(f); D.B.eval('pragma synchronous=0');
  for (var i=0; i<b.length; i++) TRY(b[i]);
  for (var k in D) { try { D[k].eval('begin; rollback'); } catch(e) { L.push('OPEN '+k); } L.push(D[k].query('select a from t order by a', {mode:'array1d'}).join(',')); }
  puts(L.join(' ')); delete D.A; delete D.B; D = null; File.remove(f); if (File.exists(f+'-wal')) File.remove(f+'-wal'); if (File.exists(f+'-shm')) File.remove(f+'-shm');
}
'''


class Two:
    def __init__(self, d, journal):
        f = os.path.join(d, 'o%d.db' % next(fno))
        self.f = f
        self.c = {k: sqlite3.connect(f, timeout=0, isolation_level=None) for k in 'AB'}
        self.c['A'].execute('pragma journal_mode=' + journal)
        for k in 'AB': self.c[k].execute('pragma synchronous=0')
        self.c['A'].execute('create table t(a)')
        self.d = {'A': 0, 'B': 0}; self.L = []; self.n = 0

    def it(self, k):
        if not isinstance(k, str):
            n, ty, body, thr = k
            c = self.c[n]
            c.execute('BEGIN ' + ty if ty and self.d[n] == 0 else 'SAVEPOINT x' if self.d[n] else 'BEGIN')
            self.d[n] += 1
            for i in body: self.tr(i)
            self.d[n] -= 1
            if thr:
                if self.d[n]: c.execute('ROLLBACK TO x'); c.execute('RELEASE x')
                else: c.execute('ROLLBACK')
                raise sqlite3.OperationalError
            try: c.execute('RELEASE x' if self.d[n] else 'COMMIT')
            except sqlite3.OperationalError:
                c.execute('ROLLBACK')
                raise
            return
        self.n += 1
        if k[1] == 'w': self.c[k[0]].execute('insert into t values(?)', (self.n,))
        else: self.L.append(self.read(k[0]))

    def read(self, k): return ','.join('%d' % r[0] for r in self.c[k].execute('select a from t order by a').fetchall())

    def tr(self, k):
        try: self.it(k); self.L.append(k if isinstance(k, str) else k[0])
        except sqlite3.OperationalError: self.L.append('E')

    def run(self, b):
        for k in b: self.tr(k)
        for k in 'AB': self.L.append(self.read(k))
        for k in 'AB': self.c[k].close()
        for s in ('', '-wal', '-shm', '-journal'):
            if os.path.exists(self.f + s): os.remove(self.f + s)
        return ' '.join(self.L)


def js2(b):
    return '[' + ', '.join("'%s'" % i if isinstance(i, str) else "['%s', '%s', %s, %d]" % (i[0], i[1], js2(i[2]), i[3]) for i in b) + ']'


def show2(b):
    return ' '.join(i if isinstance(i, str) else '%s%s(%s)%s' % (i[0], ':' + i[1] if i[1] else '', show2(i[2]), '!' if i[3] else '') for i in b)


def two(c, T):
    leaf = ('Aw', 'Bw', 'Ar', 'Br')
    od = c.shm()
    types = ('', 'immediate', 'exclusive', 'deferred') if T else ('', 'immediate')
    mid = [(k, ty, b, thr) for k in 'AB' for ty in types for b in bodies(leaf, (0, 1, 2) if T else (1,)) for thr in (0, 1) if T or not thr or len(b) == 1]
    for j in ('delete', 'wal'):
        for k1 in ('A',) if not T else 'AB':
            for t1 in ('', 'immediate', 'exclusive'):
                for m in mid:
                    for pre in (None,) + leaf[:3 if T else 1] + (('Br',) if not T else ()):
                        for post in (None, 'Aw', 'Bw') if T else (None, 'Aw'):
                            for thr in (0, 1):
                                b = ((k1, t1, tuple(x for x in (pre, m, post) if x), thr), 'Bw')
                                exp = Two(od, j).run(b)
                                yield Case('two %s %s' % (j, show2(b)), "TWO('%s', %s, 'w%d.db');" % (j, js2(b), next(fno)), exp, n=5)


    # one transaction after another, the first with another one in it
    for j in ('delete', 'wal'):
        for t1, k2, t2 in itertools.product(types, 'AB', types):
            for x in ('Aw', 'Br', 'Bw') if not T else leaf:
                for t3, y, thr in itertools.product(types, ('Bw', 'Aw', 'Br') if T else ('Bw',), (0, 1)):
                    b = (('B', t1, ((k2, t2, (x,), 0),), thr), ('A', t3, (y, 'Aw', y) if y[0] == 'B' else ('Aw', y), 0), 'Br')
                    yield Case('two %s %s' % (j, show2(b)), "TWO('%s', %s, 'w%d.db');" % (j, js2(b), next(fno)), Two(od, j).run(b), n=6)


# ---------------------------------------------------------------- crash and I/O error points
STEPS = {   # name: (JS, list of successive committed states as functions of the rows (a, length of b))
    'W': ("db.eval(\"insert into t values(10, 'x')\")", [lambda s: s + [(10, 1)]]),
    'M': ("db.eval(\"insert into t values(11, 'x'); update t set a=a+100 where a=1; delete from t where a=2\")",
          [lambda s: s + [(11, 1)], lambda s: s + [(11, 1)] and [(a + 100 if a == 1 else a, b) for a, b in s + [(11, 1)]], lambda s: [(a + 100 if a == 1 else a, b) for a, b in s + [(11, 1)] if a != 2]]),
    'X': ("db.transaction(function() { db.eval(\"insert into t values(20,'y'); update t set b='long'||b\"); try { db.transaction(function() { db.eval('delete from t'); throw 'x'; }); } catch(e) {} db.transaction(function() { db.eval(\"insert into t values(21,'z')\"); }); })",
          [lambda s: [(a, b + 4) for a, b in s + [(20, 1)]] + [(21, 1)]]),
    'Y': ("try { db.transaction(function() { db.eval(\"insert into t values(30,'y'); delete from t where a < 5\"); throw 'no'; }); } catch(e) { if (e != 'no') throw e; }", []),
    'I': ("db.import('t', 'g.csv', {csv:true})", [lambda s: s + [(a, 40) for a in range(1000, 1060)]]),
    'J': ("try { db.import('t', 'b.csv', {csv:true}); throw 'odd'; } catch(e) { if (e == 'odd') throw e; if (db.onecolumn('select count(*) from t where a>=1000 and a<1060 and b like \"q%\"')) throw e; }", []),
    'B': ("db.transaction(function() { for (var i=0; i<40; i++) db.query(\"insert into t values($i, replace(hex(zeroblob(200)),'00','ab'))\"); db.eval('update t set a=a+1 where a<20; create table if not exists n(a)'); })",
          [lambda s: [(a + 1 if a < 20 else a, b) for a, b in s + [(i, 400) for i in range(40)]]]),
    'K': ("db.transaction(function() { db.eval(\"insert into t values(40,'k')\"); try { db.transaction(function() { for (var i=0; i<30; i++) db.query(\"insert into t values(50, replace(hex(zeroblob(200)),'00','ab'))\"); }); } catch(e) { bad = 1; } try { db.eval(\"insert into t values(41,'k')\"); } catch(e) {} })",
          [lambda s: s + [(40, 1)] + [(50, 400)] * 30 + [(41, 1)]]),
    'Q': ("db.query('insert into t select a+500, b from t where a<50')", [lambda s: s + [(a + 500, b) for a, b in s if a < 50]]),
    'R': ("db.restore('src.db')", [lambda s: [(7, 3)] * 20]),
}
PROG = r'''
var db = new Sqlite('x.db'), lg = '', bad = 0;
try { db.eval('pragma cache_size=4'); } catch(e) {}
function S() { return db.onecolumn("select count(*)||' '||total(a)||' '||total(length(b)) from t"); }
function STEP(n, f) { var r; try { f(); r = 'ok'; } catch(e) { r = 'E'; } lg += n+' '+r+'\n'; File.write('log', lg); }
'''
ROWS = [(1, 1), (2, 2), (3, 3)]


def dg(rows): return (len(rows), float(sum(a for a, b in rows)), float(sum(b for a, b in rows)))


def crash(c, T):
    so = os.path.join(c.scratch, 'diskfault.so')
    subprocess.check_call(['gcc', '-shared', '-fPIC', '-O1', '-w', '-o', so, os.path.join(VERIF, 'checks/c/diskfault.c'), '-ldl'])
    os.chmod(so, 0o755)
    jsish = os.path.join(c.build('std'), 'jsish')
    tpl = {}
    root = c.shm()
    base = c.workdir('tpl')
    for j in ('delete', 'wal', 'truncate', 'persist'):
        f = os.path.join(base, j + '.db')
        k = sqlite3.connect(f, isolation_level=None)
        k.execute('pragma page_size=512'); k.execute('pragma journal_mode=' + j); k.execute('create table t(a,b)')
        k.executemany('insert into t values(?,?)', [(a, 'x' * b) for a, b in ROWS]); k.close()
        tpl[j] = open(f, 'rb').read()
    f = os.path.join(base, 'src.db')
    k = sqlite3.connect(f, isolation_level=None); k.execute('pragma page_size=512'); k.execute('create table t(a,b)'); k.executemany('insert into t values(7,?)', [('abc',)] * 20); k.close()
    src = open(f, 'rb').read()
    csv = ''.join('%d,%s\n' % (a, 'q' * 40) for a in range(1000, 1060))

    def one(hist, j, at, mode, err):
        """Run the history with the fault; returns (rc, log lines, state on reopening, state, calls)"""
        d = '%s/c%d' % (root, next(fno))
        os.mkdir(d)
        w = lambda n, s: open(os.path.join(d, n), 'wb').write(s if isinstance(s, bytes) else s.encode())
        w('x.db', tpl[j]); w('src.db', src); w('g.csv', csv); w('b.csv', csv + '1,2,3\n')
        w('t.jsi', PROG + ('' if j in ('delete', 'wal') else "try { db.query('pragma journal_mode=%s'); } catch(e) {}" % j) + '\n'.join('STEP(%d, function() { %s; });' % (i, STEPS[s][0]) for i, s in enumerate(hist)) + "\nvar r; try { r = S(); } catch(e) { r = 'E'; } File.write('state', r); delete db;\n")
        os.chmod(d, 0o777)
        for n in os.listdir(d): os.chmod(os.path.join(d, n), 0o666)
        env = {'LD_PRELOAD': so, 'DF_FILE': os.path.join(d, 'x.db'), 'DF_COUNT': os.path.join(d, 'count'), 'DF_AT': str(at), 'DF_MODE': str(mode)}
        if err: env['DF_ERRNO'] = str(err)
        rc, out, er = c.exec([jsish, 't.jsi'], d, 60, env)
        rd = lambda n: open(os.path.join(d, n)).read() if os.path.exists(os.path.join(d, n)) else ''
        try:
            k = sqlite3.connect(os.path.join(d, 'x.db'), timeout=1)
            ok = k.execute('pragma integrity_check').fetchone()[0]
            st = tuple(k.execute('select count(*), total(a), total(length(b)) from t').fetchone())
            k.close()
        except sqlite3.Error as e:
            ok, st = str(e), None
        r = rc, [x.split() for x in rd('log').split('\n') if x], ok, st, rd('state'), int(rd('count') or 0), er.decode('utf8', 'replace')[-300:]
        shutil.rmtree(d)
        return r

    def states(hist):
        """list per step of the allowed committed states after 0, 1, ... of its statements"""
        rows = list(ROWS); out = []
        for s in hist:
            l = [rows] + [f(rows) for f in STEPS[s][1]]
            out.append([dg(x) for x in l]); rows = l[-1]
        return out, dg(rows)

    hists = [(s,) for s in STEPS] + ([(a, b) for a in STEPS for b in STEPS] if T else [('X', 'W'), ('Y', 'W'), ('I', 'M'), ('J', 'W'), ('B', 'X')])
    jobs = []
    for j in ('delete', 'wal') + (('truncate', 'persist') if T else ()):
        for h in hists:
            if T and j in ('truncate', 'persist') and len(h) > 1: continue
            jobs.append((h, j))

    def base_run(job):
        h, j = job
        r = one(h, j, 0, 0, 0)
        return job, r

    def report(key, msg):
        if key not in c.known:
            c.report(Case(key, '', ''), msg, msg, 'see key: history %s' % key)
        else: c.known_hit[key] = 1
    runs = []
    with ThreadPoolExecutor(NCPU) as ex:
        for (h, j), r in ex.map(base_run, jobs):
            sts, fin = states(h)
            if r[0] != 0 or [x[1] for x in r[1]] != ['ok'] * len(h) or r[2] != 'ok' or r[3] != fin:
                report('crash %s %s undisturbed' % (j, ' '.join(h)), 'undisturbed run: %r, expected state %r' % (r, fin)); continue
            n = r[5]
            short = len(h) == 1
            every = 1 if short or T else 1
            cap = 60 if T and not short else 10 ** 6
            step = max(1, n // cap)
            for at in range(1, n + 1, step):
                for mode in ((0, 1, 2, 3, 4, 5) if T and short else (1, 2, 3) if short else (0, 2)):
                    if T or n < 120 or (at + mode) % 4 == 0: runs.append((h, j, at, mode, 0))
                for err, mode in ((5, 0), (28, 0), (5, 9)) if short and T else ((5, 0), (28, 9)) if short else ((5, 0),):
                    if T or n < 120 or (at + err) % 3 == 0: runs.append((h, j, at, mode, err))
    nrun = [0]

    def check(a):
        h, j, at, mode, err = a
        if c.stop: return None
        r = one(*a)
        nrun[0] += 1
        sts, fin = states(h)
        key = '%s %s %s at %d mode %d' % ('error %d' % err if err else 'crash', j, ' '.join(h), at, mode)
        if r[2] != 'ok': return key, 'the database is damaged: %s' % r[2]
        if not err:
            if r[0] != 99: return key, 'expected the process to end at call %d: rc %r %s' % (at, r[0], r[6])
            i = len(r[1])
            if any(x[1] != 'ok' for x in r[1]): return key, 'step failed before the crash: %r' % r[1]
            allow = sts[i] + ([sts[i + 1][0]] if i + 1 < len(h) else []) if i < len(h) else [fin]
            if r[3] not in allow: return key, 'ended in step %d (%s): state %r is none of %r' % (i, h[i] if i < len(h) else 'close', r[3], allow)
            return None
        if r[0] not in (0, 1): return key, 'rc %r %s' % (r[0], r[6])
        if len(r[1]) != len(h): return key, 'not all steps ran: %r' % (r[1],)
        # each step that returned has all of its effect, each that raised none (or whole statements of a multi-statement eval)
        cur = [list(ROWS)]
        for s, x in zip(h, r[1]):
            nxt = []
            for rows in cur:
                l = [rows] + [f(rows) for f in STEPS[s][1]]
                if s == 'K' and x[1] == 'ok': l += [rows + [(40, 1)] + i + k for i in ([], [(50, 400)] * 30) for k in ([], [(41, 1)])]; nxt += l[2:]
                else: nxt += [l[-1]] if x[1] == 'ok' else l[:-1] or [rows]
            cur = nxt
        allow = set(dg(x) for x in cur)
        if mode == 9 and any(x[1] == 'E' for x in r[1]):   # all later calls failed too: what the file shows may lag or lead by the failed step
            for s, x in zip(h, r[1]): allow |= {dg(f(ROWS)) for f in STEPS[s][1]}
        if r[3] not in allow: return key, 'steps %r: the file has %r, allowed %r' % (r[1], r[3], allow)
        if mode != 9:
            v = r[4].split()
            if r[4] == 'E' or (int(float(v[0])), float(v[1]), float(v[2])) not in allow: return key, 'steps %r: the connection saw %r, allowed %r' % (r[1], r[4], allow)
        return None
    with ThreadPoolExecutor(NCPU) as ex:
        for res in ex.map(check, runs):
            if res: report(*res)
    c.cov['states'] += nrun[0]
    c.cov['transitions'] += nrun[0]
    c.cov['traces_validated_against_impl'] += nrun[0]
    return nrun[0], len(jobs)


def main():
    c = Ctx('D01')
    T = c.thorough
    n = {'trees': c.run_cases(trees(T), 150, PROLOG)}
    if not c.stop: n['two'] = c.run_cases(two(c, T), 100, PRO2)
    if not c.stop: n['faults'], n['fault histories'] = crash(c, T)
    c.cov['states'] += n['trees'] + n.get('two', 0)
    c.cov['bounds'] = str(n)
    c.assumptions += ['a crash keeps or loses each write since the last sync of its file in the four (thorough: six) patterns named; SQLite itself is taken as is']
    c.finish()


if __name__ == '__main__':
    main()
