"""JSON: every small value tree, every short string over the special characters, every spelling of a text,
every truncation: stringify gives standard JSON text of the value, parse is its inverse on every spelling."""
import itertools, json
from mc.core import Ctx, Case

PROLOG = r'''
function E(a, b) { var t=typeof a, k; if (t !== typeof b) return false;
  if (a===null || b===null) return a===b;
  if (t==='array') { if (a.length!==b.length) return false; for (var i=0;i<a.length;i++) if (!E(a[i],b[i])) return false; return true; }
  if (t==='object') { var ka=Object.keys(a), kb=Object.keys(b); if (ka.length!==kb.length) return false;
     for (k in a) { if (!b.hasOwnProperty(k) || !E(a[k],b[k])) return false; } return true; }
  return a===b; }
function R(f) { try { f(); return 'accepted'; } catch(e) { return 'raised'; } }
'''

UNDEF = object()


def jstr(s):
    """JS literal of a string"""
    m = {'\\': '\\\\', '"': '\\"', '\n': '\\n', '\r': '\\r', '\t': '\\t', '\b': '\\b', '\f': '\\f'}
    return '"' + ''.join(m.get(c) or ('\\u%04x' % ord(c) if ord(c) < 32 or ord(c) == 127 else c) for c in s) + '"'


def js(v):
    if v is UNDEF: return '(({}).x)'
    if v is None: return 'null'
    if v is True: return 'true'
    if v is False: return 'false'
    if isinstance(v, str): return jstr(v)
    if isinstance(v, (list, tuple)): return '[' + ','.join(js(x) for x in v) + ']'
    if isinstance(v, dict): return '{' + ','.join('%s:%s' % (jstr(k), js(x)) for k, x in v.items()) + '}'
    return repr(v)


def norm(v):
    """what JSON text can hold of a value"""
    if v is UNDEF: return None
    if isinstance(v, (list, tuple)): return [norm(x) for x in v]
    if isinstance(v, dict): return {k: norm(x) for k, x in v.items() if x is not UNDEF}
    if isinstance(v, float) and (v != v or abs(v) == float('inf')): return None
    return v


def eq(a, b):
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None: return a is b
    if isinstance(a, list): return isinstance(b, list) and len(a) == len(b) and all(map(eq, a, b))
    if isinstance(a, dict): return isinstance(b, dict) and set(a) == set(b) and all(eq(a[k], b[k]) for k in a)
    if isinstance(a, str) or isinstance(b, str): return type(a) is type(b) and a == b
    if isinstance(b, (list, dict)): return False
    return float(a) == float('%.15g' % b)       # numbers are written with 15 digits


class Dup(Exception): pass


def strict_loads(t):
    def hook(pairs):
        d = {}
        for k, v in pairs:
            if k in d: raise Dup('member %r twice' % k)
            d[k] = v
        return d
    def const(c): raise ValueError('constant ' + c)
    v = json.loads(t, object_pairs_hook=hook, parse_constant=const)



    return v


def text_is(v, rest):
    """checker of 'TEXT(of any lines)' then one line of flags"""
    want = norm(v)

    def chk(got):
        lines = got.rstrip('\n').split('\n')
        t, flags = '\n'.join(lines[:-1]), lines[-1]
        try:
            x = strict_loads(t)
        except Exception as e:
            return 'not JSON (%s): %.200s' % (e, t)
        if not eq(x, want): return 'text means another value: %.300s' % t
        if flags != rest: return 'flags %s, expected %s, text %.200s' % (flags, rest, t)
    return chk


def trees(leaves, keys, depth, width):
    """all value trees up to depth/width"""
    cur = list(leaves)
    for d in range(depth):
        nxt = list(leaves)
        for w in range(0, width + 1):
            for t in itertools.product(cur, repeat=w):
                nxt.append(list(t))
                if w <= len(keys): nxt.append(dict(zip(keys, t)))
        cur = nxt
    return cur


def values(c):
    small = [None, 'x', UNDEF]
    lv = [None, True, False, 0, -1, 1.5, '', 'a"b']
    vs = list(lv) + [7, -0.25, 1e21, 1e-7, 123456789012345, 1e300, 5e-324, 2.2250738585072014e-308, 1e15, 1e16, -1e15, 4294967296, 2147483648, 0.1, 1 / 3, float('1e999')]
    vs = [v if v == v and abs(v if not isinstance(v, (str, type(None))) else 0) != float('inf') else None for v in vs]
    vs += trees(small, ('k', 'a b'), 2, 2) if not c.thorough else trees(small, ('k', 'a b', ''), 2, 3)[:60000]
    vs += trees(lv, ('n', 'm'), 1, 2)
    # nesting depth, width
    for n in (1, 2, 5, 10, 30, 60, 90):
        v = 1
        for i in range(n): v = [v] if i % 2 else {'k%d' % i: v}
        vs.append(v)
    for n in (1, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000):
        vs.append(list(range(n)))
        vs.append({'key%d' % i: i for i in range(n)})
        vs.append([[i, {'q': []}] for i in range(n)])
    for i, v in enumerate(vs):
        if v is UNDEF: continue
        body = 'var v=%s, n=%s; ' % (js(v), js(norm(v)))
        rt = 'E(JSON.parse(%s),n)'
        if '%.15g' % 1 and isinstance(v, float): rt = '(typeof JSON.parse(%s)===typeof n)'
        yield Case('value %.80s' % js(v), body + 'var t=JSON.stringify(v); puts(t); var t2=JSON.stringify(JSON.parse(t)); puts(%s, JSON.stringify(JSON.parse(t2))===t2);' % (rt % 't'), text_is(v, 'true true'), 3)
        if i % 1 == 0:
            for arg in ('null', 'true,1', 'false,3'):
                if arg.startswith('false'):     # bare names: only our own parser reads it back
                    yield Case('value %.80s bare' % js(v), body + 'var t=JSON.stringify(v,%s); puts(%s);' % (arg, rt % 't,false'), 'true', 2)
                else:
                    yield Case('value %.80s (%s)' % (js(v), arg), body + 'var t=JSON.stringify(v,%s); puts(t); puts(%s);' % (arg, rt % 't'), text_is(v, 'true'), 2)
            yield Case('value %.80s unquoted' % js(v), body + 'var t=JSON.stringify(v,false); puts(%s);' % (rt % 't,false'), 'true', 2)


SPECIAL = ['a', '"', '\\', '/', '\n', '\t', '\r', '\b', '\f', '\x01', '\x1f', '\x7f', 'é', '€', '😀', "'", '{', '}', '[', ']', ':', ',', ' ', 'u', 'n', '0', '\ufffd', '\U0010ffff', '\x80', '\u07ff', '\u0800', '\uffff', '\U00010000']


def strings(c):
    def one(s, key):
        body = 'var s=%s, o={}; ' % jstr(s)
        body += 'o[s]=s; var l=[s,s]; var t=JSON.stringify(s); puts(t); var u=JSON.stringify(o); puts(u); var q=JSON.parse(u);'
        body += 'puts(JSON.parse(t)===s, E(JSON.parse(JSON.stringify(l)),l), E(q,o), Object.keys(q)[0]===s, q[s]===s, JSON.parse(JSON.stringify(o,false),false)[s]===s);'

        def chk(got):
            ls = got.rstrip('\n').split('\n')
            if len(ls) != 3: return 'output %.200r' % got
            try:
                if strict_loads(ls[0]) != s: return 'string text means %.100r' % strict_loads(ls[0])
                if strict_loads(ls[1]) != {s: s}: return 'object text means %.100r' % strict_loads(ls[1])
            except Exception as e:
                return 'not JSON (%s): %.200s' % (e, got)
            if ls[2] != 'true true true true true true': return 'flags ' + ls[2]
        return Case('string %.60r(%d)' % (s, len(s)), body, chk, 6)
    for n in (0, 1, 2):
        for t in itertools.product(SPECIAL, repeat=n): yield one(''.join(t), n < 2)
    core = SPECIAL if c.thorough else ['a', '"', '\\', '/', '\n', 'é', '😀', '\x01', 'u', '{']
    for t in itertools.product(core, repeat=3): yield one(''.join(t), False)
    core = ['a', '"', '\\', 'u', '😀'] if not c.thorough else ['a', '"', '\\', 'u', '0', '😀', 'é', '\n']
    for n in ((4,) if not c.thorough else (4, 5)):
        for t in itertools.product(core, repeat=n): yield one(''.join(t), False)
    # a special character at every offset around the sizes of buffers
    offs = list(range(80, 108)) + list(range(190, 210)) + list(range(250, 262)) + [1020, 1021, 1022, 1023, 1024, 1025, 2046, 2047, 2048, 4090, 4093, 4094, 4095, 4096, 4097, 8190, 8191, 8192, 8193, 20000]
    if c.thorough: offs = list(range(0, 300)) + list(range(1000, 1040)) + list(range(4080, 4110)) + list(range(8180, 8200)) + [16384, 32768, 65535, 65536, 100000]
    for o in offs:
        for ch in ('"', '\\', 'é', '😀', '\n', '\x01', '€', '\\u0041') if o < 5000 or c.thorough else ('"', '😀'):
            yield one('x' * o + ch + 'yz', False)


def spellings(c):
    """texts built from a value with every choice of white space and escapes; parse must give the value"""
    ws = ['', ' ', '\n', '\t', '\r\n', '  \n\t ']
    docs = [('[', '1', ',', '2', ']'), ('{', '"a"', ':', '1', ',', '"b"', ':', '[', ']', '}'), ('[', '{', '}', ',', '[', ']', ',', '""', ']'), ('"x"',), ('true',), ('false',), ('null',), ('12',), ('-0.5e1',),
            ('[', '{', '"a"', ':', '{', '"b"', ':', 'null', '}', '}', ',', 'true', ']'), ('[', '[', '1', ']', ',', '[', '[', 'false', ']', ']', ']'),
            ('{', '"a"', ':', '{', '}', ',', '"b"', ':', '""', ',', '"c"', ':', '-1', '}'), ('{', '"a"', ':', '[', '1', ',', '{', '"a"', ':', '2', '}', ']', ',', '"b"', ':', '3', '}')]
    for d in docs:
        v = json.loads(''.join(d))
        for w in ws:                                             # the same everywhere, and at one place only
            for places in [None] + list(range(len(d) + 1)):
                t = ''.join((w if places is None or places == i else '') + x for i, x in enumerate(d)) + (w if places is None or places == len(d) else '')
                yield Case('text %.80r' % t, 'var t=%s; puts(E(JSON.parse(t),%s),E(JSON.parse(t,false),%s));' % (jstr(t), js(v), js(v)), 'true true', 2)
    # every character in every spelling, alone and in pairs
    def spell(ch):
        o = ord(ch)
        short = {'"': '\\"', '\\': '\\\\', '/': '\\/', '\b': '\\b', '\f': '\\f', '\n': '\\n', '\r': '\\r', '\t': '\\t'}
        r = []
        if ch not in '"\\' and o >= 32: r.append(ch)
        if ch in short: r.append(short[ch])
        if o > 0xffff:
            o -= 0x10000
            r.append('\\u%04x\\u%04X' % (0xd800 + (o >> 10), 0xdc00 + (o & 0x3ff)))
        else:
            r += ['\\u%04x' % o, '\\u%04X' % o]
        return r
    chars = ['a', '"', '\\', '/', '\n', '\t', '\r', '\b', '\f', '\x01', 'é', '€', '😀', '\U0010ffff', '\x7f', '\u07ff', '\u0800', '\uffff', '\U00010000', 'J']
    sp = [(ch, x) for ch in chars for x in spell(ch)]
    for n in (1, 2, 3):
        for t in itertools.product(sp if n < 3 or c.thorough else [x for x in sp if x[0] in 'a"/😀é'], repeat=n):
            s, x = ''.join(a for a, b in t), ''.join(b for a, b in t)
            if n == 3 and len(x) < 4: continue
            yield Case('escapes %r' % x, 'var s=%s; puts(JSON.parse(%s)===s, JSON.parse(%s)[s]===1, JSON.parse(%s)[0]===s);' % (jstr(s), jstr('"%s"' % x), jstr('{"%s":1}' % x), jstr('["%s"]' % x)), 'true true true', 3)
    # escapes at each offset of a long string
    for o in list(range(84, 100)) + [4090, 4095, 4096, 8191]:
        for a, b in sp:
            if len(b) < 2: continue
            yield Case('escape %r at %d' % (b, o), 'var s=%s; puts(JSON.parse(%s)===s);' % (jstr('x' * o + a + 'y'), jstr('"' + 'x' * o + b + 'y"')), 'true', 1)
    # lone surrogates stay apart and harm nothing after them
    for x, after in (('\\ud83d', 'x'), ('\\ude00', 'x'), ('\\ud83d\\n', 'x'), ('\\ud83d\\ud83d', 'x'), ('\\ud83d\\u0041', 'x')):
        yield Case('lone surrogate %r' % x, 'var p=JSON.parse(%s); puts(p[p.length-1], p.length);' % jstr('["q","%s","x"]' % x), 'x 3', 1)
    # numbers
    for i in ('0', '-0', '1', '-1', '10', '123', '9007199254740993', '12345678901234567890', '2147483648', '-2147483649'):
        for f in ('', '.0', '.5', '.25', '.125', '.000001'):
            for e in ('', 'e0', 'E1', 'e+2', 'e-2', 'E-10', 'e15'):
                t = i + f + e
                for wrap in ('%s', '[%s]', '{"a":%s}', '[1,%s ]'):
                    acc = {'%s': 'p', '[%s]': 'p[0]', '{"a":%s}': 'p.a', '[1,%s ]': 'p[1]'}[wrap]
                    yield Case('number ' + wrap % t, "var p=JSON.parse('%s'); puts(typeof (%s), %s===%s);" % (wrap % t, acc, acc, repr(float(t))), 'number true', 1)


def broken(c):
    """structure that does not close is refused, everywhere it is cut; JSON.check agrees with JSON.parse"""
    docs = ['{"a":1,"b":[1,2,{"c":"d"}],"e":null}', '[[],{},[{}]]', '["a\\"b","\\\\","\\u0041"]', '{"k\\"":{"l":[true,false]}}', '"str\\"x"', '[1,[2,[3,[4]]]]', '{"a":{"b":{"c":{"d":[]}}}}']
    seen = set()
    for d in docs:
        yield Case('whole %r' % d, 'puts(R(function() { JSON.parse(%s); }), JSON.check(%s), R(function() { JSON.parse(%s,false); }), JSON.check(%s,false));' % ((jstr(d),) * 4), 'accepted true accepted true', 4)
        for i in range(1, len(d)):
            cuts = [d[:i]]
            if d[i] in '[]{}':
                cuts.append(d[:i] + d[i + 1:])                                  # a bracket missing
                cuts.append(d[:i] + {'[': '{', ']': '}', '{': '[', '}': ']'}[d[i]] + d[i + 1:])     # the wrong one
                cuts.append(d[:i] + d[i] + d[i:])                               # one too many
            if d[i] == '\\' and d[i + 1] != '"' and d[i - 1] != '\\': cuts += [d[:i + 1] + 'q' + d[i + 2:], d[:i + 1] + 'u00g0' + d[i + 2:], d[:i + 1] + 'x41' + d[i + 2:]]
            for t in cuts:
                if t in seen: continue
                seen.add(t)
                # brackets inside strings do not count: ask the structure
                if closes(t): continue
                yield Case('broken %r' % t, 'puts(R(function() { JSON.parse(%s); }), JSON.check(%s), R(function() { JSON.parse(%s,false); }), JSON.check(%s,false));' % ((jstr(t),) * 4), 'raised false raised false', 4)
    # a refused text leaves nothing behind
    for t in ('[1,2', '{"a":', '"x', '[1}', '["\\q"]'):
        yield Case('after %r' % t, 'for (var i=0; i<50; i++) { R(function() { JSON.parse(%s); }); } puts(E(JSON.parse(\'[1,{"a":"b"}]\'),[1,{a:"b"}]));' % jstr(t), 'true', 50)


def closes(t):
    st, i = [], 0
    while i < len(t):
        ch = t[i]
        if ch == '"':
            i += 1
            while i < len(t) and t[i] != '"':
                if t[i] == '\\':
                    i += 1
                    if i >= len(t) or t[i] not in '"\\/bfnrtu': return False
                    if t[i] == 'u' and not all(x in '0123456789abcdefABCDEF' for x in (t[i + 1:i + 5] + '    ')[:4]): return False
                i += 1
            if i >= len(t): return False
        elif ch in '[{': st.append(ch)
        elif ch in ']}':
            if not st or st.pop() != {']': '[', '}': '{'}[ch]: return False
        i += 1
    return not st


def main():
    c = Ctx('A05')
    c.assumptions = ['JSON text is judged by Python\'s json module (duplicate members refused)', 'numbers are written with 15 significant digits (documented %.15g), so the round trip of other numbers is compared after that rounding',
                     'the parser is documented as non-validating: only structure (brackets, strings, escapes) must be refused, not every deviation from the grammar']
    for g, b in ((values(c), 150), (strings(c), 150), (spellings(c), 200), (broken(c), 100)):
        if not c.stop: c.run_cases(g, b, PROLOG)
    c.cov['states'] = len(c.outcomes)
    c.cov['alphabet'] = SPECIAL
    c.finish()


if __name__ == '__main__':
    main()
