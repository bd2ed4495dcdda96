"""Callbacks of the Sqlite object: every history of setting, clearing and leaving callbacks with conf, then the events of a
battery of statements; every veto, denial, interruption and exception; collations against an independent driver."""
import itertools, sqlite3
from mc.core import Ctx, Case

PROLOG = r'''
var db, x, G = {};
function E(k, s) { if (G.log[k] === undefined) G.log[k] = []; G.log[k].push(s); }
var H = {
 onUpdate: function(db, op, dn, tb, id) { E('onUpdate', op+' '+dn+' '+tb+' '+id); },
 onCommit: function(db) { E('onCommit', typeof db); return false; },
 onRollback: function(db) { E('onRollback', typeof db); },
 onAuth: function(db, code, a, b, d, t) { E('onAuth', code+' '+a+' '+b+' '+d+' '+t); return 'SQLITE_OK'; },
 onProfile: function(db, sql, tm) { E('onProfile', sql+(typeof tm == 'number' && tm >= 0 ? '' : tm)); },
 onProgress: function(db) { if (!G.log.onProgress) E('onProgress', typeof db); return 0; },
 onNeedCollate: function(db, n) { E('onNeedCollate', n); db.collate(n, function(db, a, b) { return a < b ? 1 : a > b ? -1 : 0; }); },
 onBusy: function(db, n) { E('onBusy', n); return n < 2; },
 onWalHook: function(db, n, k) { E('onWalHook', n+(k > 0)); return 0; }
};
var K = []; for (var k in H) K.push(k); K.sort();
var OTH;
function START(opts, file) { G.log = {}; db = new Sqlite(file, opts); db.eval('create table t(a, b); insert into t values(1, 2); create table u(w unique);'); }
function BAT() {
  G.log = {}; var x;
  db.eval("insert into t values(3, 'x')");
  db.eval('update t set b=5 where a<3; delete from t where a=3;');
  try { db.transaction(function() { db.eval('insert into u values(7)'); throw 'no'; }); } catch(e) { E('x', e); }
  db.eval('select a from t order by b collate zz'+(++G.n));
  db.query('with recursive c(x) as (values(1) union all select x+1 from c where x<300) select count(*) as n from c');
  if (OTH) { OTH.transaction(function() { try { db.eval('insert into t values(9,9)'); E('x', 'in'); } catch(e) { E('x', 'busy'); } }, 'immediate'); }
  var o = [];
  for (var i=0; i<K.length; i++) { var k = K[i]; if (G.log[k]) o.push(k+'('+G.log[k].join(';')+')'); }
  puts(o.join(' ')+' '+(G.log.x ? G.log.x.join(',') : ''));
}
function SET(k) { var o = {}; o[k] = H[k]; if (k == 'onProgress') o.progressSteps = 20; db.conf(o); }
function CLR(k) { var o = {}; o[k] = null; db.conf(o); }
function TRY(f) { try { return ''+f(); } catch(e) { return 'E'; } }
function R() { return db.query('select a from t order by a', {mode:'array1d'}).join(','); }
'''
HOOKS = 'onAuth onBusy onCommit onNeedCollate onProfile onProgress onRollback onUpdate onWalHook'.split()
SQL = ["insert into t values(3, 'x')", 'update t set b=5 where a<3;', 'delete from t where a=3;']


def oracle_auth():
    """The authorizer events of the battery, from Python's driver."""
    ev = []
    c = sqlite3.connect(':memory:', isolation_level=None)
    c.executescript('create table t(a, b); insert into t values(1, 2); create table u(w unique);')
    names = {v: k for k, v in vars(sqlite3).items() if k.startswith('SQLITE_') and k in (
        'SQLITE_INSERT SQLITE_UPDATE SQLITE_DELETE SQLITE_READ SQLITE_SELECT SQLITE_TRANSACTION SQLITE_SAVEPOINT SQLITE_FUNCTION SQLITE_RECURSIVE').split()}

    def cb(code, a, b, d, t):
        ev.append('%s %s %s %s %s' % (names.get(code, '????') if code != 33 else '????', a or '', b or '', d or '', t or ''))
        return 0
    c.set_authorizer(cb)
    for s in SQL: c.execute(s)
    c.set_authorizer(None)
    c.execute('savepoint _jsi_transaction')   # the transaction's own statements are not shown
    c.set_authorizer(cb); c.execute('insert into u values(7)'); c.set_authorizer(None)
    c.execute('rollback')
    c.set_authorizer(cb)
    c.create_collation('zz', lambda a, b: 0)
    c.execute('select a from t order by b collate zz')
    k = len(ev)
    c.execute('with recursive c(x) as (values(1) union all select x+1 from c where x<300) select count(*) as n from c').fetchall()
    return ev, ev[:k]   # the second time the query is in the statement cache


AUTH = oracle_auth()


def battery(on, n, wal, oth, rowid=2):
    """The events of one battery run when the hooks of `on` are set."""
    o = []
    busy = ''
    zz = 'onNeedCollate' in on or n is None
    for h in HOOKS:
        if h not in on: continue
        if h == 'onUpdate': e = ['INSERT main t %d' % rowid, 'UPDATE main t 1', 'DELETE main t %d' % rowid, 'INSERT main u 1']
        elif h == 'onCommit': e = ['userobj'] * 3
        elif h == 'onRollback': e = ['userobj']
        elif h == 'onProgress': e = ['userobj']
        elif h == 'onNeedCollate': e = ['zz%d' % n]
        elif h == 'onAuth': e = AUTH[n - 1]
        elif h == 'onProfile':
            e = SQL + ['SAVEPOINT _jsi_transaction', 'insert into u values(7)', 'ROLLBACK', 'select a from t order by b collate zz%d' % n,
                       'with recursive c(x) as (values(1) union all select x+1 from c where x<300) select count(*) as n from c']
        elif h == 'onWalHook':
            e = ['maintrue'] * (4 - n) if wal else []   # the update changes nothing the second time
        elif h == 'onBusy': e = ['0', '1', '2'] if oth else []
        if e: o.append('%s(%s)' % (h, ';'.join(e)))
    return o


def conf_ops():
    for h in HOOKS: yield ('+', h); yield ('-', h)
    yield ('o', '')     # another option
    yield ('r', '')     # read an option
    yield ('a', '')     # read all


def history(ops, init, file=None):
    on = set(init)
    src = "G.n = 0; OTH = null; START({%s}, %s);" % (', '.join(('%s:H.%s' % (h, h)) + (', progressSteps:20' if h == 'onProgress' else '') for h in init), "'%s'" % file if file else 'null')
    if file: src += " db.query('pragma journal_mode=wal'); db.eval('pragma synchronous=0'); OTH = new Sqlite('%s');" % file
    for k, h in ops:
        src += ' ' + {'+': "SET('%s');" % h, '-': "CLR('%s');" % h, 'o': 'db.conf({echo:false});', 'r': "db.conf('timeout');", 'a': 'db.conf();'}[k]
        if k == '+': on.add(h)
        elif k == '-': on.discard(h)
    # without a collation the statement fails: define it
    if 'onNeedCollate' not in on: src += " db.collate('zz1', function(db,a,b) { return 0; }); db.collate('zz2', function(db,a,b) { return 0; });"
    exp = []
    for n in (1, 2):
        ev = battery(on, n, bool(file), bool(file))
        if file and 'onProfile' in on: ev = [e for e in ev if not e.startswith('onProfile')]
        if file and 'onAuth' in on: ev = [e for e in ev if not e.startswith('onAuth')]
        exp.append(' '.join(ev) + ' ' + ('no,busy' if file else 'no'))
    src += ' BAT(); BAT();'
    if file: src += ' OTH = null; db = null;'

    def norm(got):
        import re
        g = got.split('\n')
        if file: g = [' '.join(w for w in re.split(r' (?=on[A-Z]|no,)', l) if not w.startswith(('onProfile', 'onAuth'))) for l in g]
        if [x.strip() for x in g] != [x.strip() for x in exp]: return 'expected %r got %r' % (exp, g)
    return Case('conf %s init %s%s' % (' '.join(k + h for k, h in ops), ','.join(init), ' wal' if file else ''), src, norm, n=len(ops) + 2)


fno = itertools.count()


def histories(T):
    ops = list(conf_ops())
    for a in [(o,) for o in ops] + list(itertools.product(ops, repeat=2)): yield history(a, ())
    for a in itertools.product(ops, repeat=3):
        if T or (a[0][0] == '+' and a[1][0] in '+-o' and a[2][0] in 'or-'): yield history(a, ())
    for r in (1, 2, 9):
        for init in itertools.combinations(HOOKS, r):
            for a in [()] + [(o,) for o in ops]: yield history(a, init)
    for o in [()] + [(x,) for x in ops] + ([(x, y) for x in ops for y in ops] if T else []):
        for init in ((), ('onWalHook',), ('onBusy',), ('onWalHook', 'onBusy', 'onCommit')):
            yield history(o, init, 'h%d.db' % next(fno))


VETO = ['false', 'true', '0', '1', '2', '-1', "'x'", 'null', 'undefined', "'throw'"]


def ret(v): return "throw 'cb'" if v == "'throw'" else 'return ' + v


def truth(v): return v in ('true', '1', '2', '-1', "'throw'")


def replies():
    for v in VETO:
        bad = truth(v)
        thr = 1 if v == "'throw'" else 0
        for form, reads in (("db.eval('insert into t values(8,8)')", '1,8'), ("db.query('insert into t values(8,8)')", '1,8'), ("db.transaction(function() { db.eval('insert into t values(8,8)'); db.eval('insert into t values(9,9)'); })", '1,8,9'),
                            ("db.transaction(function() { db.eval('insert into t values(8,8)'); }, 'immediate')", '1,8')):
            src = "START({}, null); db.conf({onCommit:function(db) { %s; }}); var r = TRY(function() { %s; return 'ok'; }); puts(r, R(), db.conf('errCnt')); db.conf({onCommit:null}); puts(TRY(function() { db.eval('insert into t values(7,7)'); return 'ok'; }), R());" % (ret(v), form)
            s = '1' if bad else reads
            yield Case('onCommit %s for %s' % (v, form), src, '%s %s %d\nok %s' % ('E' if bad else 'ok', s, thr, ','.join(sorted((s + ',7').split(',')))), n=3)
        src = "START({}, null); db.conf({onProgress:function(db) { %s; }, progressSteps:5}); puts(TRY(function() { return db.onecolumn('with recursive c(x) as (values(1) union all select x+1 from c where x<300) select count(*) as n from c'); })); db.conf({progressSteps:0}); puts(TRY(function() { return db.onecolumn('with recursive c(x) as (values(1) union all select x+1 from c where x<300) select count(*) as n from c'); }));" % ret(v)
        yield Case('onProgress %s' % v, src, '%s\n300' % ('E' if bad else '300'), n=2)
        src = "START({}, null); db.conf({onUpdate:function(db,o,d,t,i) { %s; }}); puts(TRY(function() { db.eval('insert into t values(8,8); update t set b=1'); return 'ok'; }), R(), db.conf('errCnt'));" % ret(v)
        yield Case('onUpdate %s' % v, src, 'ok 1,8 %d' % (3 * thr), n=3)
        src = "START({}, null); db.conf({onRollback:function(db) { %s; }}); puts(TRY(function() { db.transaction(function() { db.eval('insert into t values(8,8)'); throw 1; }); return 'ok'; }), R()); db.eval('insert into t values(6,6)'); puts(R());" % ret(v)
        yield Case('onRollback %s' % v, src, 'E 1\n1,6', n=3)
    codes = [('SQLITE_INSERT', "insert into t values(8,8)"), ('SQLITE_UPDATE', 'update t set a=8'), ('SQLITE_DELETE', 'delete from t'), ('SQLITE_READ', 'select a from t'), ('SQLITE_SELECT', 'select a from t'), ('SQLITE_CREATE_TABLE', 'create table q(a)'),
             ('SQLITE_DROP_TABLE', 'drop table u'), ('SQLITE_TRANSACTION', 'begin'), ('SQLITE_PRAGMA', 'pragma cache_size=3'), ('SQLITE_ATTACH', "attach ':memory:' as m2"), ('SQLITE_FUNCTION', "select abs(a) from t"), ('SQLITE_CREATE_INDEX', 'create index ii on t(a)'),
             ('SQLITE_CREATE_VIEW', 'create view vv as select 1'), ('SQLITE_CREATE_TRIGGER', 'create trigger gg after insert on t begin select 1; end'), ('SQLITE_ALTER_TABLE', 'alter table t rename to t9'), ('SQLITE_SAVEPOINT', 'savepoint s'), ('SQLITE_ANALYZE', 'analyze'), ('SQLITE_REINDEX', 'reindex')]
    for code, sql in codes:
        for rep, kind in (("'SQLITE_OK'", 0), ("'SQLITE_DENY'", 1), ("'SQLITE_IGNORE'", 2), ("'else'", 3), ('0', 0), ('null', 0), ('true', 0), ("'throw'", 1), ('undefined', 0), ("''", 3)):
            # the same through Python's driver
            c = sqlite3.connect(':memory:', isolation_level=None)
            c.executescript('create table t(a, b); insert into t values(1, 2); create table u(w unique);')
            num = getattr(sqlite3, code)
            c.set_authorizer(lambda k, *a: {0: 0, 1: 1, 2: 2, 3: 999}[kind] if k == num else 0)
            try:
                rows = c.execute(sql).fetchall()
                e = 'ok ' + ('%s' % (','.join('null' if r[0] is None else '%s' % r[0] for r in rows)) if sql.startswith('select') else '')
            except sqlite3.Error: e = 'E'
            src = "START({}, null); db.conf({onAuth:function(db,c,a,b,d,t) { if (c=='%s') { %s; } return 'SQLITE_OK'; }}); puts(TRY(function() { var r = db.query(\"%s\", {mode:'array1d'}), o=[]; for (var i=0; i<r.length; i++) o.push(r[i]===null?'null':r[i]); return 'ok '+o.join(','); }));" % (code, ret(rep), sql)
            yield Case('onAuth %s %s' % (code, rep), src, (lambda got, e=e: None if got.strip() == e.strip() else 'expected %r got %r' % (e, got)), n=2)
    # the busy callback: gives up after n calls, or another transaction ends meanwhile
    for k in range(0, 6):
        for free in range(0, 7):
            for v in ('1', 'true'):
                f = 'b%d.db' % next(fno)
                src = ("OTH = new Sqlite('%s'); OTH.eval('pragma synchronous=0; create table t(a,b)'); var n = 0; START2('%s'); db.conf({onBusy:function(d,i) { n++; if (i == %d) { OTH.eval('commit'); } if (i < %d) return %s; return 0; }});"
                       " OTH.eval('begin immediate; insert into t values(1,1)'); puts(TRY(function() { db.eval('insert into t values(2,2)'); return 'ok'; }), n); try { OTH.eval('commit'); } catch(e) {} puts(R()); OTH = null; db = null;" % (f, f, free, k, v))
                got = free < k
                yield Case('onBusy %d free %d %s' % (k, free, v), src, '%s %d\n%s' % ('ok' if got else 'E', free + 1 if got else k + 1, '1,2' if got else '1'), n=4)
    yield Case('onTrace', "START({onTrace:function(db, s) { puts(s); }}, null); db.eval('select 5');", "create table t(a, b);\ninsert into t values(1, 2);\ncreate table u(w unique);\nselect 5", n=1)


TEXTS = ['', 'a', 'b', 'ab', 'abc', 'B', 'é', '你', '😀', 'a b', '1', '10', '9', 'x' * 100, 'x' * 101, "q'", 'x' * 300 + 'y']


def collations(T):
    fns = {'rev': ('a < b ? 1 : a > b ? -1 : 0', lambda a, b: 1 if a < b else -1 if a > b else 0),
           'len': ('a.length - b.length', lambda a, b: len(a) - len(b)),
           'num': ('parseInt("0"+a) - parseInt("0"+b)', None),
           'fwd': ('a > b ? 1 : a < b ? -1 : 0', lambda a, b: 1 if a > b else -1 if a < b else 0),
           'first': ('a.substr(0,1) > b.substr(0,1) ? 1 : a.substr(0,1) < b.substr(0,1) ? -1 : 0', lambda a, b: (a[:1] > b[:1]) - (a[:1] < b[:1]))}
    asc = [t for t in TEXTS if t.isascii()]
    for name, (js, py) in fns.items():
        if py is None: continue
        texts = TEXTS if name not in ('rev', 'fwd', 'first') else [t for t in TEXTS if t.isascii()]
        pool = list(itertools.permutations(texts[:6], 3)) + list(itertools.combinations(texts, 2)) + [tuple(texts), tuple(reversed(texts))]
        for tt in pool if not T else pool + list(itertools.permutations(texts, 3)):
            if any("'" in t for t in tt) and len(tt) < 4: continue
            c = sqlite3.connect(':memory:')
            c.create_collation(name, py)
            c.execute('create table t(a)'); c.executemany('insert into t values(?)', [(t,) for t in tt])
            l = [r[0] for r in c.execute('select a from t order by a collate %s, rowid' % name)]
            m = c.execute('select min(a collate %s), count(distinct a collate %s), (select count(*) from t x, t y where x.a = y.a collate %s) from t' % (name, name, name)).fetchone()
            sub = [r[0] for r in c.execute("select a from (select substr(a||'zz',1,length(a)) as a, rowid as r from t) order by a collate %s, r" % name)]
            # a collation defined twice, one replaced by another
            src = ("db = new Sqlite(); db.collate('%s', function(db,a,b) { return 0; }); db.collate('%s', function(db,a,b) { return %s; }); db.eval('create table t(a)'); var v = %s; for (var i=0; i<v.length; i++) db.query('insert into t values($v(['+i+']))'); "
                   "puts(db.query('select a from t order by a collate %s, rowid', {mode:'array1d'}).join('|')); puts(db.query('select min(a collate %s) as m, count(distinct a collate %s) as n, (select count(*) from t x, t y where x.a = y.a collate %s) as k from t', {mode:'arrays'})[0].join('|')); "
                   "puts(db.query(\"select a from (select substr(a||'zz',1,length(a)) as a, rowid as r from t) order by a collate %s, r\", {mode:'array1d'}).join('|'));" % (name, name, js, '[' + ','.join('"%s"' % t for t in tt) + ']', name, name, name, name, name))
            yield Case('collate %s %s' % (name, ','.join(t[:5] for t in tt)), src, '%s\n%s\n%s' % ('|'.join(l), '|'.join(str(x) for x in m), '|'.join(sub)), n=len(tt))


def main():
    c = Ctx('D04')
    T = c.thorough
    n = {}
    for name, it in (('histories', histories(T)), ('replies', replies()), ('collations', collations(T))):
        n[name] = c.run_cases(it, 80, PROLOG + "function START2(f) { db = new Sqlite(f); db.eval('pragma synchronous=0'); }\n")
        if c.stop: break
    c.cov['states'] += sum(n.values())
    c.cov['bounds'] = 'cases: %s; %d callbacks' % (n, len(HOOKS))
    c.assumptions += ["Python's sqlite3 driver is the oracle for authorizer events and collations"]
    c.finish()


if __name__ == '__main__':
    main()
