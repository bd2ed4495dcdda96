"""Text in and out of the Sqlite object: every value pair, column name, header, separator, null text, width and limit in every
output mode against an executable model; what is written is read back (insert, csv, tabs, json); every small CSV file, every
line length around the buffer's growth and every conflict mode for import."""
import itertools, json
from mc.core import Ctx, Case

PROLOG = r'''
function F(v:any) { var t = typeof v; if (t == 'undefined') return 'U'; if (v === null) return 'N';
  if (t == 'number') return '#'+v; if (t == 'string') return "'"+v+"'"; if (t == 'boolean') return 'b'+v;
  if (t == 'array') { var o=[]; for (var i=0; i<v.length; i++) o.push(F(v[i])); return '['+o.join(',')+']'; }
  var o=[]; for (var k in v) o.push(k+'='+F(v[k])); return '{'+o.join(',')+'}'; }
var db = new Sqlite();
function Q(s, o) { var r; try { r = db.query(s, o); puts(F(r)); } catch(e) { puts('E'); } }
function QS(s, os) { for (var i=0; i<os.length; i++) Q(s, os[i]); }
function TAB(t, n) { db.eval('drop table if exists '+t+'; create table '+t+'('+n+');'); }
function IMP(t, o) { var r; try { r = F(db.import(t, 'x.txt', o)); } catch(e) { r = 'E'; } return r; }
function ALL(t) { return F(db.query('select * from '+t, {mode:'arrays'})); }
function IM(n, s, o) { TAB('t', n); db.eval("insert into t(a) values('old')"); File.write('x.txt', s); var r = IMP('t', o); puts(r+' '+ALL('t')); }
'''


def js(s):
    return '"' + s.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n').replace('\t', '\\t').replace('\r', '\\r') + '"'


def jo(o):
    return '{' + ', '.join('%s:%s' % (k, js(v) if isinstance(v, str) else json.dumps(v)) for k, v in o.items()) + '}'


def fnum(v):
    f = float(v)
    if f in (float('inf'), float('-inf')): return 'Infinity' if f > 0 else '-Infinity'
    if abs(f) < 1e300 and f == int(f) and abs(f) < 2 ** 63: return '%d' % int(f)
    return '%.15g' % f


U = object()


def F(v):
    if v is U: return 'U'
    if v is None: return 'N'
    if v is True: return 'btrue'
    if v is False: return 'bfalse'
    if isinstance(v, (int, float)): return '#' + fnum(v).lstrip('+')
    if isinstance(v, bytes): return "'" + v.decode() + "'"
    if isinstance(v, str): return "'" + v + "'"
    if isinstance(v, dict): return '{' + ','.join('%s=%s' % (k, F(x)) for k, x in sorted(v.items(), key=lambda e: e[0].encode())) + '}'
    return '[' + ','.join(F(x) for x in v) + ']'


def lit(v):
    if v is None: return 'null'
    if isinstance(v, str): return "'" + v.replace("'", "''") + "'"
    if isinstance(v, bytes): return "X'" + v.hex() + "'"
    if v == float('inf'): return '1e999'
    if v == float('-inf'): return '-1e999'
    return repr(v)


def text(v, nv):
    if v is None: return nv
    if isinstance(v, bytes): return v.decode()
    if isinstance(v, str): return v
    if isinstance(v, int): return '%d' % v
    return fnum(v)


def csvq(s, sep):
    if s == '' or any(c in '"\'' or ord(c) <= 32 or ord(c) >= 127 for c in s) or sep in s: return '"' + s.replace('"', '""') + '"'
    return s


def html(s):
    for a, b in (('&', '&amp;'), ('<', '&lt;'), ('>', '&gt;'), ('"', '&quot;'), ("'", '&#39;')): s = s.replace(a, b)
    return s


def jstr(s):
    o = '"'
    for ch in s:
        o += {'"': '\\"', '\\': '\\\\', '\n': '\\n', '\t': '\\t', '\r': '\\r', '\b': '\\b', '\f': '\\f'}.get(ch) or ('\\u%04x' % ord(ch) if ord(ch) < 32 or ord(ch) > 126 else ch)
    return o + '"'


def jval(v):
    if v is None: return 'null'
    if isinstance(v, (str, bytes)): return jstr(text(v, ''))
    if isinstance(v, float) and v in (float('inf'), float('-inf')): return 'null'
    return text(v, '')


def quoted(v):
    """The value as insert mode writes it."""
    if isinstance(v, float): return '1e999' if v == float('inf') else '-1e999' if v == float('-inf') else fnum(v)
    return 'NULL' if v is None else lit(v)


def model(mode, names, rows, headers=False, sep=None, nv=None, limit=0, width=None, table='table'):
    """What query() returns, or None where this is not specified (no row to name the columns, and what the tests pin)."""
    if limit > 0: rows = rows[:limit]
    n2 = nv or ''
    if mode == 'rows': return [dict(zip(names, r)) for r in rows]
    if mode == 'none': return U
    if not rows: return None if mode in ('json', 'json2') else [] if mode.startswith('array') else ''
    h = [names] if headers else []
    if mode == 'arrays': return h + rows
    if mode == 'array1d': return [x for r in h + rows for x in r]
    if sep is None: sep = {'list': '|', 'column': ' ', 'tabs': '\t'}.get(mode, ',')
    if mode in ('list', 'tabs'): return '\n'.join(sep.join(text(x, n2) for x in r) for r in h + rows)
    if mode == 'csv': return '\n'.join(sep.join(csvq(text(x, n2), sep) for x in r) for r in h + rows)
    if mode == 'html':
        return '\n'.join('<TR>' + ''.join('<%s>%s</%s>' % (t, html(text(x, n2)), t) for x in r) + '</TR>' for t, r in [('TH', x) for x in h] + [('TD', x) for x in rows])
    if mode == 'json':
        if headers: return '[ ' + ', '.join('[' + ', '.join(jval(x) for x in r) + ']' for r in h + rows) + ' ]'
        return '[ ' + ', '.join('{' + ', '.join(jstr(k) + ':' + jval(x) for k, x in zip(names, r)) + '}' for r in rows) + ' ]'
    if mode == 'json2':
        return '{ "names": [ ' + ', '.join(jstr(k) for k in names) + ' ], "values": [ ' + ', '.join('[' + ', '.join(jval(x) for x in r) + ' ]' for r in rows) + ' ] } '
    if mode == 'insert':
        return ''.join('INSERT INTO "%s" VALUES(%s);\n' % (table.replace('"', '""'), ','.join(quoted(x) for x in r)) for r in rows)
    if mode == 'column':
        if not headers: return None
        ws = [width[i] if width and i < len(width) and width[i] > 0 else max(10, len(k)) for i, k in enumerate(names)]
        cut = lambda r: sep.join(x[:w].ljust(w) for x, w in zip(r, ws))
        return cut(names) + ' ' + sep * (len(names) - 1) + '\n' + sep.join('-' * w for w in ws) + '\n' + '\n'.join(cut([text(x, n2) for x in r]) for r in rows)
    raise KeyError(mode)


def norm(v):
    """Values as the JavaScript side sees them."""
    if isinstance(v, list): return [norm(x) for x in v]
    return v


VALS = [None, 0, 1, -5, 9007199254740991, 1.5, -0.25, 1e100, float('inf'), '', 'a', "it's", "''", 'a,b', 'a|b', 'a::b', 'x"y', '"', '""', 'a\nb', '\n', 'a\tb', '<&>', 'é',
        '日本', ' lead', 'trail ', 'NIL', 'null', '12', '1e5', 'back\\slash', 'a\r', b'ab', b'', 'x' * 99, "q'" * 60, 'é' * 70, ':', 'a:', '\x01', '\x7f']
NAMES = ['a', 'x y', 'a,b', 'a|b', 'a::b', 'q"t', "it's", '<b>', 'é日', 'exactly10c', 'longer than ten', 'n\nl', 'NIL', 'tab\there', 'back\\s', '12']
MODES = 'rows arrays array1d list csv tabs html json json2 insert column none'.split()
SEPS = {'list': [None, ',', '::', ' '], 'csv': [None, '|', '::', ';'], 'tabs': [None, ' | '], 'column': [None, '|', ' : ']}


def sel(names, rows):
    s = ' union all '.join('select ' + ', '.join(lit(v) + (' as "' + n.replace('"', '""') + '"' if i == 0 else '') for v, n in zip(r, names)) for i, r in enumerate(rows))
    return s


def one(names, rows, opts, src=None):
    """(JS options, expected line) of one query."""
    o = dict(opts)
    kw = {'headers': o.get('headers', False), 'sep': o.get('separator'), 'nv': o.get('nullvalue'), 'limit': o.get('limit', 0), 'width': o.get('width'), 'table': o.get('table', 'table')}
    return jo(o), model(o['mode'], names, rows, **kw)


def batchq(key, names, rows, optlist, sql=None):
    js_, exp = [], []
    for o in optlist:
        a, e = one(names, rows, o)
        if e is None: continue
        js_.append(a); exp.append(F(e))
    if not js_: return None
    return Case(key, 'QS(%s, [%s]);' % (js(sql or sel(names, rows)), ', '.join(js_)), '\n'.join(exp), n=len(js_))


def pairs(T):
    for v, w in itertools.product(VALS, VALS):
        if not T and VALS.index(w) % 4 and v is not w: continue
        rows = [[v, w], [w, v]]
        if isinstance(v, float) and v == 1e100 and not isinstance(w, float) and False: continue
        for ms in (MODES[:6], MODES[6:]):
            ol = [{'mode': m, 'headers': h, **({'separator': s} if s is not None else {})} for m in ms for h in (False, True) for s in SEPS.get(m, [None])]
            yield batchq('pair %r %r as %s' % (v, w, '/'.join(ms)), ['c', 'd'], rows, ol)


def singles():
    vs = [None, 7, 2.5, '', 'a,b', 'NIL', "o'k", b'z']
    for k in range(4):
        for rows in itertools.product(vs, repeat=min(k, 2)):
            rows = [[x] for x in (rows * 2)[:k]] if k else []
            sql = sel(['c'], rows) if rows else 'select 1 as c where 0'
            for m in MODES:
                ol = [{'mode': m, 'headers': h, 'limit': l, **({'nullvalue': n} if n is not None else {})} for h in (False, True) for l in (0, 1, 2, 3, 4) for n in (None, 'NIL', '', '<,">')]
                b = batchq('rows %r as %s' % (rows, m), ['c'], rows, ol, sql)
                if b: yield b


def strings(T):
    """Every string over the characters that need quoting somewhere, up to a length; written, and read back."""
    al = ["a", "'", '"', ':', '\n'] + (['<', '&', '\\', ',', '\t'] if T else [])
    ts = [''.join(x) for n in range(1, 5) for x in itertools.product(al, repeat=n)] if not T else [''.join(x) for n in range(1, 5) for x in itertools.product(al, repeat=n) if n < 4 or len(set(x)) < 4]
    for i in range(0, len(ts), 4):
        rows = [[t, 1] for t in ts[i:i + 4]]
        ol = [{'mode': m} for m in ('csv', 'list', 'tabs', 'html', 'json', 'insert')] + [{'mode': 'csv', 'separator': '::'}]
        b = batchq('strings %r' % ts[i:i + 4], ['c', 'd'], rows, ol)
        b.src += "TAB('t', 'c,d'); db.eval(db.query(%s, {mode:'insert', table:'t'})); Q('select c from t', {mode:'array1d'});" % js(sel(['c', 'd'], rows))
        b.exp += '\n' + F(ts[i:i + 4]); b.n += 1
        yield b


def names():
    for a, b in itertools.product(NAMES, NAMES):
        if a == b: continue
        rows = [[1, 'x'], [None, '2']]
        ol = [{'mode': m, 'headers': h, **({'separator': s} if s is not None else {})} for m in MODES for h in (False, True) for s in SEPS.get(m, [None])]
        ol += [{'mode': 'insert', 'table': b}]
        yield batchq('names %r %r' % (a, b), [a, b], rows, ol)


def columns(T):
    texts = ['', 'a', 'abcdefghi', 'abcdefghij', 'abcdefghijk', 'é', 'ééééééééé', 'éééééééééé', 'ééééééééééé', '日本語', 'a日é' * 5, 'x' * 30]
    ws = [None, [], [1], [3, 5], [0, 2], [12, 12], [10, 1], [2, 2, 2], [30]]
    for n1, n2 in itertools.product(texts[1:], texts[1:]):
        if n1 == n2: n2 = 'z'
        for t1 in texts if T else texts[::3] + [texts[8]]:
            ol = [{'mode': 'column', 'headers': True, **({'width': w} if w is not None else {}), **({'separator': s} if s else {})} for w in ws for s in (None, '|', '--')]
            yield batchq('columns %s %s of %s' % (n1, n2, t1), [n1, n2], [[t1, 12345678], [None, t1]], ol)


def bools():
    for decl, v in itertools.product(['bool', 'BOOLEAN', 'Boolfoo', 'int', 'text', 'abool', ''], [0, 1, 2, -1, 1.0, 0.5, None]):
        b = decl.lower().startswith('bool')
        if decl in ('bool', 'BOOLEAN', 'Boolfoo', 'int', 'abool') and v == 1.0 and isinstance(v, float): st = 1
        else: st = v
        if decl == 'text' and v is not None: st = {1.0: '1.0', 0.5: '0.5'}.get(v, str(v)) if isinstance(v, float) else str(v)
        t = text(st, '')
        e = {}
        if b and isinstance(st, int) and st in (0, 1): t = 'true' if st else 'false'; e['arrays'] = [[bool(st)]]; e['json'] = '[ {"a":%s} ]' % t
        else: e['arrays'] = [[st]]; e['json'] = '[ {"a":%s} ]' % jval(st)
        e['list'] = e['tabs'] = t; e['csv'] = csvq(t, ','); e['html'] = '<TR><TD>%s</TD></TR>' % t
        src = "TAB('t','a %s'); db.eval('insert into t values(%s)');" % (decl, lit(v))
        for m in e: src += "Q('select a from t', {mode:'%s'});" % m
        src += "var s = db.query('select a from t', {mode:'insert',table:'t'}); db.eval('delete from t'); db.eval(s); Q('select a from t', {mode:'arrays'});"
        yield Case('bool %s %s' % (decl, v), src, '\n'.join([F(e[m]) for m in e] + [F(e['arrays'])]), n=7)


def reload_insert():
    vs = VALS + [bytes(range(256)), b'\0', b"'", -float('inf'), 3.0, 'INSERT);', ');', '--', ';', '\\']
    for v, w in itertools.product(vs, vs):
        if vs.index(w) % 5 and v is not w: continue
        for tb in ('t2', 'a"b', "x y'") if v is w else ('t2',):
            q = '"' + tb.replace('"', '""') + '"'
            src = "TAB('t','a,b'); db.eval(%s); var s = db.query('select * from t', {mode:'insert', table:%s}); TAB(%s,'a,b'); db.eval(s); " % (
                js('insert into t values(%s,%s);insert into t values(%s,%s)' % (lit(v), lit(w), lit(w), lit(v))), js(tb), js(q))
            src += "Q(%s, {mode:'array1d'});" % js('select hex(a), typeof(a), hex(b), typeof(b) from %s union all select 1,2,3,4' % q)
            def hx(x):
                if x is None: return ['', 'null']
                if isinstance(x, bytes): return [x.hex().upper(), 'blob']
                if isinstance(x, str): return [x.encode().hex().upper(), 'text']
                if isinstance(x, float):
                    if x in (float('inf'), -float('inf')): return [('Inf' if x > 0 else '-Inf').encode().hex().upper(), 'real']
                    if fnum(x).lstrip('-').isdigit(): return [fnum(x).encode().hex().upper(), 'integer']
                    return [None, 'real']
                return [str(x).encode().hex().upper(), 'integer']
            e = hx(v) + hx(w) + hx(w) + hx(v) + [1, 2, 3, 4]
            if None in e:   # reals in SQLite's own notation
                import sqlite3
                c = sqlite3.connect(':memory:')
                h = lambda x: [c.execute('select hex(?)', (x,)).fetchone()[0], 'real'] if hx(x)[0] is None else hx(x)
                e = h(v) + h(w) + h(w) + h(v) + [1, 2, 3, 4]
            yield Case('dump and reload %r %r into %s' % (v, w, tb), src, F(e), n=2)


def reload_import(T):
    for mode, (v, w) in itertools.product(('csv', 'tabs'), itertools.product(VALS, VALS)):
        if not T and VALS.index(w) % 4 and v is not w: continue
        src = ''; exp = []
        for sep, nv, hd in itertools.product([None, '::', '|'] if mode == 'csv' else [None, '::'], (None, 'NIL'), (False, True)):
            s = sep or (',' if mode == 'csv' else '\t')
            tv = [text(x, nv or '') for x in (v, w)]
            if mode == 'tabs' and any('\n' in t or s in t or (t + s).find(s) != len(t) for t in tv): continue
            if mode == 'csv' and any((t + s).find(s) != len(t) and csvq(t, s) == t for t in tv): continue   # a separator that begins inside the text
            o = {'mode': mode, 'headers': hd}
            im = {'csv': mode == 'csv', 'headers': hd}
            if sep: o['separator'] = sep; im['separator'] = sep
            if nv: o['nullvalue'] = nv; im['nullvalue'] = nv
            rd = [None if t == '' or t == nv else t for t in tv]
            src += "File.write('x.txt', db.query(%s, %s)); db.eval('drop table if exists t;'); %s r = IMP('t', %s); puts(r, ALL('t'), F(db.query('select * from t limit 1',{mode:'arrays',headers:true})[0]));" % (
                js(sel(['c', "d'"], [[v, w], [w, v]])), jo(o), '' if hd else "db.eval(\"create table t(c, 'd''')\");", jo(im))
            # physical lines
            lines = 2 + hd + sum(t.count('\n') for t in tv) * 2
            exp.append('#%d %s %s' % (lines, F([rd, rd[::-1]]), F(['c', "d'"])))
        if src: yield Case('%s out and in %r %r' % (mode, v, w), 'var r;' + src, '\n'.join(exp), n=len(exp))


def reload_json():
    for v, w in itertools.product(VALS, VALS):
        if VALS.index(w) % 4 and v is not w: continue
        j = lambda x: None if x == float('inf') else x
        e = F([{'c': j(v), 'd': j(w)}]) + F([['c', 'd'], [j(v), j(w)]]) + F({'names': ['c', 'd'], 'values': [[j(v), j(w)]]})
        yield Case('json read back %r %r' % (v, w), "var q = %s; puts(F(JSON.parse(db.query(q,{mode:'json'}))) + F(JSON.parse(db.query(q,{mode:'json',headers:true}))) + F(JSON.parse(db.query(q,{mode:'json2'}))));" % js(sel(['c', 'd'], [[v, w]])), e, n=3)


def parse_csv(s, sep):
    """Records of a well-formed file as (fields, lines), or None."""
    out, i = [], 0
    while i < len(s):
        rec, lines = [], 1
        while 1:
            if i < len(s) and s[i] == '"':
                j, f = i + 1, ''
                while 1:
                    if j >= len(s): return None
                    if s[j] == '"':
                        if s[j + 1:j + 2] == '"': f += '"'; j += 2; continue
                        j += 1; break
                    if s[j] == '\n': lines += 1
                    f += s[j]; j += 1
                i = j
                if i < len(s) and s[i] != '\n' and not s.startswith(sep, i): return None
            else:
                j = i
                while j < len(s) and s[j] != '\n' and not s.startswith(sep, j):
                    if s[j] == '"': return None
                    j += 1
                f = s[i:j]; i = j
            rec.append(f)
            if s.startswith(sep, i): i += len(sep); continue
            break
        i += 1
        out.append((rec, lines))
    return out


def imp_model(s, nc, o):
    """(return, rows) of importing s, 'E' when refused, None when the file is not well formed."""
    sep = o.get('separator') or (',' if o.get('csv') else '\t')
    if o.get('csv'): recs = parse_csv(s, sep)
    else: recs = [(ln.split(sep), 1) for ln in (s[:-1] if s.endswith('\n') else s).split('\n')] if s else []
    if recs is None: return None
    rows, n = [], 0
    lim = o.get('limit', 0)
    for rec, ln in recs:
        if lim > 0 and n >= lim: break
        if n == 0 and o.get('headers'): n += 1; continue
        n += ln
        if len(rec) != nc: return 'E'
        rows.append([None if f == '' or f == o.get('nullvalue') else f for f in rec])
    return n, rows


def imp_case(s, nc, o, more=''):
    m = imp_model(s, nc, o)
    old = [['old'] + [None] * (nc - 1)]
    cols = ', '.join('abcd'[:nc])
    src = "IM('%s', %s, %s);" % (cols, js(s), jo(o))
    if m is None:
        def exp(got, s=s):
            if got == 'E ' + F(old): return None
            if got.startswith('#') and got[got.index(' ') + 1:].startswith(F(old)[:-1]) and '\n' not in s: return None
            if got.startswith('#') and F(old)[:-1] in got: return None
            return 'neither refused with the table as it was, nor imported: %.200r' % got
    elif m == 'E': exp = 'E ' + F(old)
    else: exp = '#%d %s' % (m[0], F(old + m[1]))
    return Case('import %r%s into %d columns, %s' % (s if len(s) < 60 else s[:40] + '...(%d)' % len(s), more, nc, o), src, exp)


def files(alpha, n, ncs, opts):
    for k in range(n + 1):
        for t in itertools.product(alpha, repeat=k):
            s = ''.join(t)
            for nc, o in itertools.product(ncs, opts): yield imp_case(s, nc, o)


LENS = [0, 1, 97, 98, 99, 100, 101, 102, 197, 198, 199, 200, 201, 298, 299, 300, 301, 398, 399, 400, 698, 699, 700, 701, 1398, 1400, 1499, 1500, 3100, 8191, 8192, 20000]


def lengths(T):
    ls = LENS
    for a, b in itertools.product(ls, ls if T else [0, 1, 99, 100, 199, 300, 8192]):
        for end in ('', '\n'):
            for q in (0, 1, 2):
                if q == 0: s = 'x' * a + '\n' + 'y' * b + end; nc = 1
                elif q == 1: s = '"' + 'x' * a + '""' + 'y' * b + '",z' + end; nc = 2
                else: s = 'p,"' + 'x' * a + '\n' + 'y' * b + '"' + end + ('k,l' if end else ''); nc = 2
                if q == 0 and a + b > 9000 and not T: continue
                yield imp_case(s, nc, {'csv': q > 0}, ' lengths %d %d' % (a, b))


def conflicts():
    for cf, tr, pos, dup, lim in itertools.product([None, 'rollback', 'abort', 'fail', 'ignore', 'replace'], (0, 1, 2), (0, 1, 2), ('k', 'f1'), (0, 1, 2, 3)):
        rows = [['f1', '1'], ['f2', '2'], ['f3', '3']]
        rows[pos] = [dup, 'd']
        if dup == 'f1' and pos == 0: continue
        table = {'k': 'old'}
        used = rows[:lim] if lim else rows
        bad = False
        order = dict(table)
        for a, b in used:
            if a in order:
                if cf in ('ignore',): continue
                if cf == 'replace': del order[a]; order[a] = b; continue
                bad = True; break
            order[a] = b
        cn = cf or 'rollback'
        if bad: order = dict(table)
        ret = 'E' if bad else '#%d' % len(used)
        o = {'csv': True}
        if cf: o['conflict'] = cf.upper()
        if lim: o['limit'] = lim
        after = {}
        if tr == 0:
            body = "puts(IMP('t', %s));" % jo(o); e = [ret]
        elif tr == 1:   # the import inside a transaction that has done something
            body = "try { db.transaction(function() { db.eval(\"insert into t values('b4', 'x')\"); puts(IMP('t', %s)); db.eval(\"insert into t values('af', 'y')\"); }); puts('done'); } catch(e) { puts('lost'); }" % jo(o)
            if bad and cn == 'rollback': e = [ret, 'lost']; order = dict(table)
            else: e = [ret, 'done']; order = dict(list(order.items()) + [('b4', 'x'), ('af', 'y')])
        else:
            body = "try { db.transaction(function() { puts(IMP('t', %s)); throw 'no'; }); } catch(e) { puts('out'); }" % jo(o)
            e = [ret, 'out']; order = dict(table)
        src = "TAB('t','a primary key,b'); db.eval(\"insert into t values('k','old')\"); File.write('x.txt', %s); %s puts(F(db.query('select * from t order by a',{mode:'arrays'}))); db.eval(\"insert into t values('zz',1)\"); db.transaction(function() {db.eval('delete from t');}); puts(db.onecolumn('select count(*) from t'));" % (
            js('\n'.join(','.join(r) for r in rows)), body)
        e += [F([[a, b] for a, b in sorted(order.items())]), '0']
        yield Case('conflict %s %s transaction, %s again at %d, limit %d' % (cf, ('no', 'in a', 'in a failing')[tr], dup, pos, lim), src, '\n'.join(e), n=3)


def headers_in():
    for ns in itertools.product(NAMES, NAMES):
        if ns[0] == ns[1] or '\n' in ''.join(ns): continue
        for csv, sep in ((True, None), (True, '::'), (False, None), (False, '::')):
            s = sep or (',' if csv else '\t')
            if not csv and any(s in x for x in ns): continue
            f = (lambda x: csvq(x, s)) if csv else (lambda x: x)
            txt = s.join(f(x) for x in ns) + '\n' + '1' + s + '2\n'
            o = {'headers': True, 'csv': csv}
            if sep: o['separator'] = sep
            for tb in ('t', "t'q"):
                q = '"%s"' % tb
                yield Case('header %r csv=%s sep=%s into %s' % (ns, csv, sep, tb), "db.eval('drop table if exists %s'); File.write('x.txt', %s); puts(IMP(%s, %s)); Q(%s, {mode:'arrays',headers:true});" % (
                    q.replace("'", "\\'"), js(txt), js(tb), jo(o), js('select * from ' + q)), '#2\n' + F([list(ns), ['1', '2']]), n=1)
    for txt, csv in itertools.product(['', '\n', ',a\n', 'a,,b\n', 'a,\n', '"",a\n', 'a,a\n', '"a\n'], (True,)):
        def exp(got):
            return None if got in ('E U', ) else 'a header that names no columns was taken: %r' % got
        if txt in ('"a\n',): continue
        yield Case('bad header %r' % txt, "db.eval('drop table if exists t'); File.write('x.txt', %s); var r = IMP('t',{csv:true,headers:true}); puts(r, F(db.onecolumn(\"select name from sqlite_master where name='t'\")));" % js(txt), exp, n=1)
    for miss in ('select', 'nosuch.txt'):
        yield Case('no file %s' % miss, "TAB('t','a'); var r; try { r = db.import('t', 'nosuch.txt'); } catch(e) { r = 'E'; } puts(r, ALL('t'));", 'E []')
    yield Case('no table', "db.eval('drop table if exists t'); File.write('x.txt','1\\n'); puts(IMP('t', {}));", 'E')
    for lim, hd in itertools.product(range(0, 6), (False, True)):
        o = {'csv': True, 'limit': lim, 'headers': hd}
        yield imp_case('a,b\n1,2\n3,4\n5,6\n', 2, o)
        yield imp_case('a,b\n"1\n",2\n3,"\n\n4"\n5,6\n', 2, o)
        yield imp_case('a,b\n1,2\n3\n5,6\n', 2, o)


def main():
    c = Ctx('D03')
    T = c.thorough
    n = {}

    def go(name, it, batch=100, kind='std'):
        k = [0, 0]

        def w():
            for x in it:
                if x is None: continue
                k[0] += 1; k[1] += x.n
                yield x
        c.run_cases(w(), batch, PROLOG, kind=kind)
        n[name + ('' if kind == 'std' else ' (ASan)')] = k[0]
    A = ['a', ',', '"', '\n']
    go('pairs', pairs(T)); go('rows', singles()); go('strings', strings(T)); go('names', names()); go('columns', columns(T)); go('bools', bools())
    go('dump', reload_insert()); go('export and import', reload_import(T)); go('json', reload_json())
    go('files', files(A, 8 if T else 5, (1, 2), [{'csv': True}]), 300)
    go('files with headers or limit', files(A, 5 if T else 4, (2,), [{'csv': True, 'limit': 1}, {'csv': True, 'nullvalue': 'a'}]), 300)
    go('files, long separator', files(['a', '::', ':', '"', '\n'], 5 if T else 4, (2,), [{'csv': True, 'separator': '::'}]), 300)
    go('tab files', files(['a', '\t', '"', '\n', ','], 5 if T else 4, (1, 2), [{}]), 300)
    go('line lengths', lengths(T), 40); go('conflicts', conflicts()); go('headers', headers_in())
    go('files', files(A, 5 if T else 4, (1, 2), [{'csv': True}]), 100, 'asan')
    go('line lengths', lengths(False), 40, 'asan')
    go('columns', columns(False), 60, 'asan')
    c.cov['states'] += sum(n.values())
    c.cov['bounds'] = 'cases: %s; %d values, %d column names, %d modes' % (n, len(VALS), len(NAMES), len(MODES))
    c.assumptions += ['floats of up to 15 digits, text without NUL; malformed CSV (a quote inside a bare field, text after a closing quote) only has to be taken or refused as a whole',
                      "column mode without headers and the first row of line mode are not specified: tests/sqlite.jsi pins them as they are"]
    c.finish()


if __name__ == '__main__':
    main()
