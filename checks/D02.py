"""Queries of the Sqlite object: every history of queries, nested queries, callbacks that stop or raise, errors and
schema changes on one connection for several sizes of the statement cache; every value in every binding form, column
type and result mode; typed bindings; objects stored and read back.  The oracle is Python's own sqlite3 driver."""
import itertools, json, sqlite3
from mc.core import Ctx, Case

PROLOG = r'''
function F(v:any) { var t = typeof v; if (t == 'undefined') return 'U'; if (v === null) return 'N';
  if (t == 'number') return '#'+v; if (t == 'string') return "'"+v+"'"; if (t == 'boolean') return 'b'+v;
  if (t == 'array') { var o=[]; for (var i=0; i<v.length; i++) o.push(F(v[i])); return '['+o.join(',')+']'; }
  var o=[]; for (var k in v) o.push(k+'='+F(v[k])); return '{'+o.join(',')+'}'; }
var db, x, o, arr, n, U;
function OPEN(c) { db = new Sqlite(null, {stmtCacheMax:c}); db.eval('create table t(id integer primary key, v); create table u(w unique); insert into t(v) values(10); insert into t(v) values(20);'); x = 100; n = 0; }
var OPS = {
 i1: function() { x++; return F(db.query('insert into t(v) values(:x)', {mode:'rows'})); },
 i2: function() { x++; return F(db.query('insert into t(v) values(?)', [x])); },
 i3: function() { var o = {a:{b:++x}}; return F(db.query('insert into t(v) values($o(a.b))')); },
 i4: function() { var x = 7; return F(db.query('insert into t(v) values(:x)', {mode:'rows'})); },
 sa: function() { return F(db.query('select * from t')); },
 sb: function() { return F(db.query('select * from t', {mode:'arrays'})); },
 sw: function() { return F(db.query('select id from t where v <> $x and v <> @x order by id', {mode:'array1d'})); },
 sl: function() { return F(db.query('select * from t', {mode:'arrays', limit:1})); },
 mu: function() { return F(db.query('insert into t(v) values(@x); select count(*) as c from t; ')); },
 mc: function() { return F(db.query('-- note\n select 1 as a ; select * from t where id=1;/* end */')); },
 bl: function() { return F(db.query('  ')); },
 up: function() { return F(db.query('update t set v=v+1 where id < 3', {retChanged:true})); },
 de: function() { return F(db.query('delete from t where id=(select min(id) from t)', {retChanged:true})); },
 e1: function() { return F(db.query('selec 1')); },
 e2: function() { return F(db.query('insert into t(id,v) values(2,0)')); },
 e3: function() { return F(db.query('insert into t(v) values(:nosuchvar)')); },
 e4: function() { return F(db.query('insert into t(v) values(?),(?)', [1])); },
 em: function() { return F(db.query('insert into t(v) values(5); selec 2')); },
 al: function() { n++; return F(db.eval('alter table t add column c'+n+' default '+n+';') >= 0); },
 n1: function() { var s = []; db.query('select * from t', function(r) { s.push(r.id, db.query('select * from t').length); }); return F(s); },
 n2: function() { var s = []; db.query('select id from t', function(r) { s.push(r.id); db.query('insert or replace into u values($r(id))'); }); return F(s); },
 n3: function() { var s = []; try { db.query('select * from t', function(r) { s.push(r.id); if (s.length == 2) throw 'stop'; }); } catch(e) { s.push(e); } return F(s); },
 n4: function() { var s = []; db.query('select * from t', function(r) { s.push(r.id); return s.length == 2; }); return F(s); },
 n5: function() { var s = []; db.query('select * from t', function(r) { s.push(r.id); try { db.query('select * from t', function(q) { s.push(q.id); throw 'in'; }); } catch(e) { s.push(e); } }); return F(s); },
 n6: function() { var s = []; db.query('select id from t', function(r) { s.push(db.onecolumn('select max(id) from t where id <= '+r.id)); }); return F(s); },
 oc: function() { return F(db.onecolumn('select v from t order by id desc')) + F(db.onecolumn('select v from t where id=0')) + F(db.onecolumn('select null')); },
 ex: function() { return F(db.exists('select v from t where id=1')) + F(db.exists('select v from t where id=0')); },
 nc: function() { return F(db.query('select * from t', {nocache:true})); },
 c0: function() { db.conf({stmtCacheMax:0}); return ''; },
 c1: function() { db.conf({stmtCacheMax:1}); return ''; }
};
function RUN(c, ops) { OPEN(c); for (var i=0; i<ops.length; i++) { var r; try { r = OPS[ops[i]](); } catch(e) { r = 'E'; } puts(ops[i]+' '+r); }
  puts(F(db.query('select * from t', {mode:'arrays'})) + F(db.query('select w from u order by w', {mode:'array1d'})) + F(db.conf('stmtCacheCnt') <= Math.max(c, 1))); }
'''


def fnum(v):
    f = float(v)
    if f == int(f) and abs(f) < 2 ** 63 if abs(f) < 1e300 else False: return '%d' % int(f)
    return '%.15g' % f


def F(v):
    if v is None: return 'N'
    if v is True: return 'btrue'
    if v is False: return 'bfalse'
    if isinstance(v, (int, float)): return '#' + fnum(v)
    if isinstance(v, str): return "'" + v + "'"
    if isinstance(v, bytes): return "'" + v.decode('utf8') + "'"
    if isinstance(v, (list, tuple)): return '[' + ','.join(F(x) for x in v) + ']'
    return '{' + ','.join('%s=%s' % (k, F(v[k])) for k in sorted(v, key=lambda s: s.encode())) + '}'


class Thrown(Exception):
    pass


class Sim:
    """The same operations on Python's driver."""
    def __init__(self):
        self.c = sqlite3.connect(':memory:', isolation_level=None, cached_statements=0)
        self.c.executescript('create table t(id integer primary key, v); create table u(w unique); insert into t(v) values(10); insert into t(v) values(20);')
        self.x = 100.0; self.n = 0

    def q(self, sql, *a):
        cur = self.c.execute(sql, a)
        rows = cur.fetchall()
        names = [d[0] for d in cur.description or ()]
        return rows, names

    def rows(self, sql, *a):
        r, n = self.q(sql, *a)
        return [dict(zip(n, x)) for x in r]

    def op(self, k):
        q, rows = self.q, self.rows
        if k in ('i1', 'i2', 'i3'):
            self.x += 1; q('insert into t(v) values(?)', self.x); return F([])
        if k == 'i4': q('insert into t(v) values(?)', 7.0); return F([])
        if k in ('sa', 'nc'): return F(rows('select * from t'))
        if k == 'sb': return F(q('select * from t')[0])
        if k == 'sw': return F([r[0] for r in q('select id from t where v <> ? order by id', self.x)[0]])
        if k == 'sl': return F(q('select * from t limit 1')[0])
        if k == 'mu':
            q('insert into t(v) values(?)', self.x); return F(rows('select count(*) as c from t'))
        if k == 'mc': return F([{'a': 1}] + rows('select * from t where id=1'))
        if k == 'bl': return F([])
        if k == 'up': return F(self.c.execute('update t set v=v+1 where id < 3').rowcount)
        if k == 'de': return F(self.c.execute('delete from t where id=(select min(id) from t)').rowcount)
        if k in ('e1', 'e3', 'e4'): return 'E'
        if k == 'e2':
            try: q('insert into t(id,v) values(2,0)')
            except sqlite3.IntegrityError: return 'E'
            return F([])
        if k == 'em': q('insert into t(v) values(5)'); return 'E'
        if k == 'al':
            self.n += 1; q('alter table t add column c%d default %d' % (self.n, self.n)); return F(True)
        ids = [r[0] for r in q('select id from t')[0]]
        if k == 'n1': return F([y for i in ids for y in (i, len(ids))])
        if k == 'n2':
            for i in ids: q('insert or replace into u values(?)', i)
            return F(ids)
        if k == 'n3': return F(ids[:2] + (['stop'] if len(ids) > 1 else []))
        if k == 'n4': return F(ids[:2])
        if k == 'n5': return F([y for i in ids for y in (i, ids[0], 'in')])
        if k == 'n6': return F(ids)
        if k == 'oc':
            r = q('select v from t order by id desc')[0]
            return (F(r[0][0]) if r else 'U') + 'UN'
        if k == 'ex': return F(bool(q('select v from t where id=1')[0])) + F(False)
        return ''

    def final(self):
        return F(self.q('select * from t')[0]) + F([r[0] for r in self.q('select w from u order by w')[0]]) + 'btrue'


OPS = 'i1 i2 i3 i4 sa sb sw sl mu mc bl up de e1 e2 e3 e4 em al n1 n2 n3 n4 n5 n6 oc ex nc c0 c1'.split()


def histories(depth, caches, OPS=OPS):
    for c in caches:
        for ops in itertools.product(OPS, repeat=depth):
            s = Sim()
            out = ['%s %s' % (k, s.op(k)) for k in ops]
            out.append(s.final())
            s.c.close()
            yield Case('cache %d: %s' % (c, ' '.join(ops)), 'RUN(%d,%s);' % (c, json.dumps(list(ops))), '\n'.join(out), n=depth + 1)


# ------------------------------------------------------------- values
VALS = [('0', 0.0), ('1', 1.0), ('-1', -1.0), ('1.5', 1.5), ('255', 255.0), ('2147483648', 2147483648.0), ('9007199254740992', 9007199254740992.0),
        ('-4611686018427387904', -4611686018427387904.0), ('1e18', 1e18), ('1e300', 1e300), ('1e-7', 1e-7), ("''", ''), ("'a'", 'a'), ('"it\'s"', "it's"), ("'\\u00e9\\u4e2d'", '\u00e9\u4e2d'), ("'0'", '0'),
        ("'1.0'", '1.0'), ("' 5'", ' 5'), ("'1e3'", '1e3'), ("'0x1F'", '0x1F'), ("'null'", 'null'), ("'x'.repeat(5000)", 'x' * 5000), ('true', 1), ('false', 0), ('null', None)]
AFF = ['', 'int', 'text', 'real', 'blob', 'numeric', 'boolean']
FORMS = [(':v', "var v = %s;", 'null'), ('@v', "var v = %s;", 'null'), ('$v', "var v = %s;", 'null'), ('?', "var v = %s;", '[v]'), ('?', "var v = %s;", '{values:[v]}'),
         ('$o(k)', "var o = {k:%s};", 'null'), ('$a(0)', "var a = [%s];", 'null'), ('$a([i])', "var i = 1, a = [9,%s];", 'null'), ('$o([k])', "var k = 'z', o = {z:%s};", 'null'),
         ('$o(p.q)', "var o = {p:{q:%s}};", 'null'), ('$a([i].q)', "var i = 1, a = [9,{q:%s}];", 'null'), ('$o(p.q.r)', "var o = {p:{q:{r:%s}}};", 'null')]


def rd(v, aff, decl=True):
    if aff == 'boolean' and decl and isinstance(v, int) and v in (0, 1): return bool(v)
    return v


def values():
    c = sqlite3.connect(':memory:', isolation_level=None)
    for aff in AFF:
        for js, pv in VALS:
            for force in (0, 1):
                bv = pv
                if force and isinstance(pv, float) and pv == int(pv) and abs(pv) < 2 ** 63: bv = int(pv)
                c.execute('drop table if exists g'); c.execute('create table g(v %s)' % aff)
                c.execute('insert into g values(?)', (bv,))
                (v, t), = c.execute('select v, typeof(v) from g').fetchall()
                eq = c.execute('select count(*) from g where v = ?', (bv,)).fetchall()[0][0]
                v = rd(v, aff)
                for fi, (b, decl, arg) in enumerate(FORMS):
                    src = "var db = new Sqlite(null,{forceInt:%s}); db.eval('create table g(v %s)'); %s\n" % ('true' if force else 'false', aff, decl % js)
                    a = '' if arg == 'null' else ',' + arg
                    src += "db.query('insert into g values(%s)'%s);\n" % (b, a)
                    src += "puts(F(db.query('select v, typeof(v) as t from g')), F(db.query('select v from g',{mode:'arrays'})), F(db.query('select v from g',{mode:'array1d'})), F(db.onecolumn('select v from g')));\n"
                    src += "puts(F(db.query('select count(*) from g where v = %s'%s)));\n" % (b, a if arg != 'null' else ", {mode:'rows'}")
                    exp = '%s %s %s %s\n%s' % (F([{'v': v, 't': t}]), F([[v]]), F([v]), F(v), F([{'count(*)': eq}]))
                    yield Case('value %s as %s%s in column %r forceInt %d' % (js[:20], b, a, aff, force), src, exp, n=3)
    c.close()


def mixed():
    """Several parameters in one statement, repeated and shuffled: each gets its own value and type."""
    parms = [(':n', 1.5, 'real', 1.5), ('@s', 'q', 'text', 'q'), ('$z', None, 'null', None), ('$o(i:integer)', 7, 'integer', 7), ('$o(s:string)', '8', 'text', '8'), ('$o(d:double)', 9.0, 'real', 9.0), ('$o(t)', 5.0, 'real', 5.0),
             ('$o(l)', '[ 1, "k" ]', 'text', '[ 1, "k" ]'), ('$a(0)', 'zero', 'text', 'zero'), ('$o(b:bool)', 1, 'integer', 1)]
    for w in (2, 3):
        for ps in itertools.product(parms, repeat=w):
            sel = ', '.join('%s as c%d, typeof(%s) as t%d' % (p[0], i, p[0], i) for i, p in enumerate(ps))
            src = "var db = new Sqlite(), n = 1.5, s = 'q', z = null, a = ['zero'], o = {i:7, s:8, d:'9', t:5, l:[1,'k'], b:true};\n"
            src += "puts(F(db.query('select %s',{mode:'array1d'})), typeof o.s, typeof o.d, typeof o.i);" % sel
            exp = []
            for p in ps: exp += [p[3], p[2]]
            yield Case('parameters ' + ' '.join(p[0] for p in ps), src, F(exp) + ' number string number', n=1)


def typed():
    """$o(f:type): conversion, warning, error or nothing, by typeCheck."""
    import math
    vals = [('5', 5.0), ('2.5', 2.5), ("'7'", '7'), ("'w'", 'w'), ('true', True), ('false', False), ('null', None)]
    types = ['string', 'double', 'integer', 'bool', 'blob', 'date', 'time', 'datetime']
    c = sqlite3.connect(':memory:')
    ints = ('integer', 'date', 'time', 'datetime')
    for (js, v), t, chk in itertools.product(vals, types, ('convert', 'warn', 'error', 'disable', '')):
        b, err = v, False
        if chk in ('convert', ''):
            if v is None: continue                                 # what null converts to is not stated
            if t in ('string', 'blob'):
                b = {True: 'true', False: 'false'}[v] if isinstance(v, bool) else fnum(v) if isinstance(v, float) else v
                if t == 'blob': b = b.encode()
            elif t == 'bool':
                if v == 'w' or v == '7': continue
                b = bool(v)
            else:
                if v == 'w': continue
                b = float(v)
                if t in ints: b = int(b)
        else:
            ok = {'string': isinstance(v, str), 'blob': True, 'bool': isinstance(v, bool)}.get(t, isinstance(v, float))
            if t == 'blob' and not isinstance(v, str): continue    # not stated
            if v is None: continue
            err = chk == 'error' and not ok
            if chk != 'disable':
                if t in ints and isinstance(v, float): b = int(v)
                if t == 'blob' and isinstance(v, str): b = v.encode()
        exp = 'E' if err else F(list(c.execute('select ?, typeof(?)', (b, b)).fetchall()[0]))
        src = "var db = new Sqlite(), o = {f:%s}, r; try { r = F(db.query('select $o(f:%s), typeof($o(f:%s))',{mode:'array1d'%s})); } catch(e) { r = 'E'; } puts(r, F(o.f));" % (js, t, t, ", typeCheck:'%s'" % chk if chk else '')
        yield Case('typed %s as %s, typeCheck %s' % (js, t, chk or 'default'), src, exp + ' ' + F(v), n=1)
    c.close()


def undef():
    for form, decl, m, w in itertools.product(('$o(k)', ':v', '$nosuch', '$o(zz)'), (0,), (0, 1), (0, 1)):
        undefd = form in ('$o(k)', ':v')
        src = "var db = new Sqlite(null,{bindWarn:%s}), v, o = {k:U}, r; db.eval('create table g(a,b)'); function go(p) { var o = {k:p}, v = p, q = 1; " % ('true' if w else 'false')
        src = "var db = new Sqlite(null,{bindWarn:%s}); db.eval('create table g(a,b)');\n" % ('true' if w else 'false')
        src += "var v = 3, o = {k:3}, q = 1, r; db.query('insert into g values($q,%s)',{mapundef:%s});\n" % (form if form != '$nosuch' and form != '$o(zz)' else '$v', 'true' if m else 'false')
        src += "v = undefined; o.k = undefined; q = 2; try { r = F(db.query('insert into g values($q,%s)',{mapundef:%s})); } catch(e) { r = 'E'; }\n" % (form, 'true' if m else 'false')
        src += "puts(r, F(db.query('select * from g',{mode:'array1d'})));"
        ok = w or (m and undefd)
        exp = ('[] ' if ok else 'E ') + F([1, 3] + ([2, None] if ok else []))
        yield Case('undefined %s mapundef %d bindWarn %d' % (form, m, w), src, exp, n=2)


def objects(quick):
    kinds = [('null', None), ('1', 1), ('-2.5', -2.5), ('0', 0), ("'s'", 's'), ("''", ''), ("\"it's\"", "it's"), ('true', True), ('false', False), ('[]', []), ("[1,'b',true,null]", [1, 'b', True, None]), ("[\"it's\"]", ["it's"]), ("{x:9,k:'b'}", {'x': 9, 'k': 'b'})]
    names = ['a', 'set', 'order', 'select', 'Z9', '_x']
    opts = ['', ', noTypes:true', ', defaultNull:true', ', noChecks:true', ', noDefaults:true'] if not quick else ['', ', noDefaults:true', ', noChecks:true']
    n1 = [((a,), (k,)) for a in names for k in kinds]
    n2 = [((a, b), (k, l)) for a, b in itertools.permutations(names[:4 if not quick else 3], 2) for k in kinds for l in kinds]
    for (ns, ks), opt in itertools.chain(itertools.product(n1, opts), itertools.product(n2, opts if not quick else opts[:1])):
        src = "var db = new Sqlite(), ob = {%s};\n" % ', '.join('%s:%s' % (a, k[0]) for a, k in zip(ns, ks))
        src += "db.query('create table B %%v',{obj:{name:'ob'%s}}); db.query('insert into B %%v','ob'); var r; try { db.query('insert into B default values'); } catch(e) { r = 'E'; }\n" % opt
        src += "puts(F(db.query('select * from B where rowid=1')), F(ob)); puts(F(db.query('select * from B where rowid=2')), r);\n"
        src += "db.query('update B %v where rowid=2','ob'); puts(F(db.query('select * from B where rowid=2')));\n"
        ob = {a: k[1] for a, k in zip(ns, ks)}
        st = ob
        if 'noTypes' in opt:
            st = {a: (int(v) if isinstance(v, bool) else v) for a, v in ob.items()}
            if any(isinstance(v, (list, dict)) for v in ob.values()): continue
        df = {a: (None if opt and 'noChecks' not in opt else v) for a, v in ob.items()}
        # without a default, or with NULL for one, the checks refuse a row that leaves the field out
        ref = ('noDefaults' in opt and any(v is not None and not isinstance(v, (list, dict)) for v in ob.values())) or \
              ('defaultNull' in opt and any(isinstance(v, (int, float)) for v in ob.values()))
        yield Case('object {%s}%s' % (', '.join('%s:%s' % (a, k[0]) for a, k in zip(ns, ks)), opt), src, '\n'.join([F([st]) + ' ' + F(ob), '[] E' if ref else F([df]) + ' undefined', '[]' if ref else F([st])]), n=4)


def funcs():
    c = sqlite3.connect(':memory:')
    c.create_function('f', 1, lambda a: a); c.create_function('f', 2, lambda a, b: b)
    vals = ['0', '5', '2.5', "'q'", "''", 'null', "x'6162'", '9007199254740993', '-1', '1e300']
    for v in vals:
        (r, t), = c.execute('select %s, typeof(%s)' % (v, v)).fetchall()
        if t == 'integer': t = 'real'; r = float(r)
        if t == 'blob': t = 'text'; r = 'ab'
        yield Case('function of %s' % v, "var db = new Sqlite(); db.func('f', function(a) { return a; }); puts(F(db.query('select f(%s), typeof(f(%s))',{mode:'array1d'})));" % (v.replace("'", "\\'"), v.replace("'", "\\'")), F([r, t]), n=1)
        yield Case('two functions %s' % v, "var db = new Sqlite(); db.func('f', function(a) { return 'one'; }); db.func('f', function(a,b) { return b; }); db.func('g', function(a) { return 1; }); db.func('g', function(a) { return true; });"
                   "puts(F(db.query('select f(1), f(1,%s), g(1), F(2)',{mode:'array1d'})));" % v.replace("'", "\\'"), F(['one', r, 1, 'one']), n=1)
    yield Case('function that raises', "var db = new Sqlite(); db.func('f', function(a) { if (a == 2) throw 'x'; return a; }); var r; try { r = F(db.query('select f(1) union all select f(2)')); } catch(e) { r = 'E'; } puts(r, F(db.onecolumn('select f(3)')));", 'E #3', n=2)
    yield Case('function that queries', "var db = new Sqlite(); db.func('f', function(a) { return db.onecolumn('select $a+1'); }); puts(F(db.query('select f(1), f(f(1))',{mode:'array1d'})));", F([2, 3]), n=3)
    import re
    for pat, s, mod in itertools.product(['a', '^b', 'A', '[0-9]+', 'x|y', '.', '$^', 'NULL'], ['abc', 'ABC', 'b9', '', 'NULL'], ['', 'i']):
        for mx in (100, 1, 0):
            if pat == 'NULL' or s == 'NULL': e = None
            else: e = int(re.search(pat, s, re.I if mod else 0) is not None)
            qp = pat if pat == 'NULL' else '"%s"' % pat
            qs = s if s == 'NULL' else '"%s"' % s
            call = "regexp(%s,%s%s)" % (qp, qs, ',"i"' if mod else '')
            other = "regexp(%s,%s%s)" % (qp, qs, '' if mod else ',"i"')
            eo = None if e is None else int(re.search(pat, s, 0 if mod else re.I) is not None)
            yield Case('regexp %s %s %s cache %d' % (pat, s, mod, mx), "var db = new Sqlite(null,{maxRegexCache:%d}); puts(F(db.query('select \"q\" regexp \"q\", %s, %s, %s',{mode:'array1d'})));" % (mx, call, other, call), F([1, e, eo, e]), n=1)


def main():
    c = Ctx('D02')
    T = c.thorough
    n = {}

    def go(name, it, batch=100):
        k = [0, 0]

        def w():
            for x in it:
                k[0] += 1; k[1] += x.n
                yield x
        c.run_cases(w(), batch, PROLOG)
        n[name] = k[0]
    go('histories-2', histories(2, (0, 1, 2, 1000)))
    go('histories-3', histories(3, (0, 1, 2, 1000)) if T else histories(3, (1,), Q3))
    go('values', values()); go('mixed', mixed()); go('typed', typed()); go('undefined', undef()); go('objects', objects(not T)); go('functions', funcs())
    c.cov['states'] += sum(n.values())
    c.cov['bounds'] = 'cases: %s; histories of %d operations, cache sizes 0, 1, 2, 1000; %d values x %d binding forms x %d column types' % (n, len(OPS), len(VALS), len(FORMS), len(AFF))
    c.assumptions += ["Python's sqlite3 driver (the same SQLite library) is the oracle for what the SQL means"]
    c.finish()


Q3 = 'i1 i4 sa sl mu up e2 em al n1 n3 n4 n5 oc c0 c1'.split()


if __name__ == '__main__':
    main()
