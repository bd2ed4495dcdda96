"""format: every combination of flags, width, precision and conversion over boundary values, every sequence of pieces of a
format string, and every wrong call, against the C library's snprintf."""
import ctypes, itertools
from mc.core import Ctx, Case
from checks.A03 import jl
from checks.A04 import rep, text

libc = ctypes.CDLL('libc.so.6')
buf = ctypes.create_string_buffer(70000)
INT, FLT = 'diuoxX', 'aAeEfgG'

PROLOG = r'''
function L(v, convs, flags, widths, precs) {
  var i, j, k, l, r;
  for (i=0;i<flags.length;i++) { for (j=0;j<widths.length;j++) { r=[]; for (k=0;k<precs.length;k++) { for (l=0;l<convs.length;l++) {
    r.push(format('%'+flags[i]+widths[j]+precs[k]+convs[l], v)); } } puts(r.join('|')); } }
}
function M(v, convs, flags, ws, ps) {
  var i, j, k, l, r;
  for (i=0;i<flags.length;i++) { for (j=0;j<ws.length;j++) { r=[]; for (k=0;k<ps.length;k++) { for (l=0;l<convs.length;l++) {
    r.push(format('<%'+flags[i]+'*.*'+convs[l]+'>', ws[j], ps[k], v)); r.push(format('%'+flags[i]+'*'+convs[l], ws[j], v)); r.push(format('%'+flags[i]+'.*'+convs[l], ps[k], v)); } } puts(r.join('|')); } }
}
function Z(f) { try { var r=f(); puts('ok '+r.length+' '+r); } catch(e) { puts('error'); } }
'''


def num(flags, w, p, conv, v):
    f = '%' + flags + (str(w) if w else '') + ('.%d' % p if p is not None else '') + ('ll' if conv in INT else '') + conv
    a = ctypes.c_longlong(int(v)) if conv in INT else ctypes.c_double(v)
    n = libc.snprintf(buf, ctypes.c_size_t(len(buf)), f.encode(), a)
    return buf.raw[:n].decode()


def strg(flags, w, p, conv, v):
    s = v if conv == 's' or conv == 'S' or conv == 'q' else v[:1]
    if p is not None and conv not in 'cC': s = s[:p]
    pad = '0' if '0' in flags else ' '
    return s + pad * (w - len(s)) if '-' in flags else pad * (w - len(s)) + s


def one(flags, w, p, conv, v):
    if w is not None and w < 0:
        w = -w
        if '-' not in flags: flags += '-'
    return (num if conv in INT + FLT else strg)(flags, w or 0, p, conv, v)


def pieces(th):
    """(spec text, args, result) for sequences"""
    return [('%d', [7], '7'), ('%5d', [-12], '  -12'), ('%-5d|', [3], '3    |'), ('%s', ['ab'], 'ab'), ('%4s', ['é'], '   é'), ('%.2s', ['日本語'], '日本'), ('%-3s', ['x'], 'x  '),
            ('%%', [], '%'), ('%c', [65], 'A'), ('é', [], 'é'), ('text ', [], 'text '), ('%*d', [6, 42], '    42'), ('%.*f', [2, 1.5], '1.50'), ('%-*.*s', [5, 2, 'abc'], 'ab   '),
            ('%x', [255], 'ff'), ('%300d', [1], ' ' * 299 + '1'), ('%.30f', [0.5], '0.5' + '0' * 29), ('%.350f', [2], '2.' + '0' * 350), ('%S', [5], '5'), ('%q', ['"'], '"'), ('%s', ['%d'], '%d'), ('%s', [''], ''), ('%lld', [9], '9'), ('%hd', [8], '8'),
            ('%250s', ['w'], ' ' * 249 + 'w'), ('%s', ['y' * 260], 'y' * 260), ('%101d', [3], ' ' * 100 + '3'), ('%.0f', [1e300], '%.0f' % 1e300), ('%f', [-1.5e308], '%f' % -1.5e308), ('%110s', ['é'], ' ' * 109 + 'é'), ('%-130x|', [255], 'ff' + ' ' * 128 + '|')]


def ja(v): return jl(v) if isinstance(v, str) else rep(float(v)) if not isinstance(v, int) else ('%d' % v if v >= 0 else '(0-%d)' % -v)


def chunks(l, n):
    for i in range(0, len(l), n): yield l[i:i + n]


def gen(th):
    fl = [''.join(t) for n in range(0, 6) for t in itertools.combinations('-0 +#', n)]
    fl += ["'", '00', '--', '0-', '+ ', '# -0+', ' 0#', "'-", '0' * 20] + ([''.join(t) for n in (2, 3) for t in itertools.permutations('-0 +#', n)] if th else [])
    W = [0, 1, 2, 3, 5, 8, 13, 24, 25] + (list(range(4, 60, 3)) if th else [])
    P = [None, 0, 1, 2, 3, 6, 10, 17] + ([4, 5, 7, 8, 9, 20, 24, 30] if th else [])
    ints = [0, 1, -1, 7, -8, 255, 65536, 2**31, -2**31, 2**53, -2**53, 2**62, -2**63]
    flts = [0.0, 1.0, -1.0, 0.1, 0.5, 2.5, -1.005, 123456.789, 1e100, -1e-100, 1e15, 999999.5, 5e-324, 1.7976931348623157e308, float('inf'), -float('inf')]
    if th:
        ints += [2, 10, -10, 63, 64, 99, 100, 1000, 2**32 - 1, -2**40, 10**15, 10**18]
        flts += [9.5, 0.95, 99999.95, 1e-5, 1e-4, 123456789.0, 3.14159, -0.001, 2.0**63, 1e21, 1e22]
    strs = ['', 'a', 'abc', 'é', '日本語', 'aé日😀z', ' x ', '%d', 'ab' * 6]

    def lines(v, convs, flags, ws, ps):
        return '\n'.join('|'.join(one(f, w, p, c, v) for p in ps for c in convs) for f in flags for w in ws)

    def table(v, convs, flags, ws, ps):
        return Case('table %r %s %s %s %s' % (v, convs, flags, ws, ps), 'L(%s,%s,%s,%s,%s);' % (
            ja(v), '[%s]' % ','.join(jl(c) for c in convs), '[%s]' % ','.join(jl(f) for f in flags), '[%s]' % ','.join(jl(str(w) if w else '') for w in ws),
            '[%s]' % ','.join(jl('' if p is None else '.%d' % p) for p in ps)), lines(v, convs, flags, ws, ps), len(convs) * len(flags) * len(ws) * len(ps))

    def star(v, convs, flags, ws, ps):
        e = '\n'.join('|'.join(x for p in ps for c in convs for x in ('<' + one(f, w, max(0, p), c, v) + '>', one(f, w, None, c, v), one(f, 0, max(0, p), c, v))) for f in flags for w in ws)
        return Case('star %r %s %s %s %s' % (v, convs, flags, ws, ps), 'M(%s,%s,%s,%s,%s);' % (
            ja(v), '[%s]' % ','.join(jl(c) for c in convs), '[%s]' % ','.join(jl(f) for f in flags), '[%s]' % ','.join(ja(w) for w in ws), '[%s]' % ','.join(ja(p) for p in ps)),
            e, 3 * len(convs) * len(flags) * len(ws) * len(ps))

    for v in ints:
        for f in chunks(fl, 8): yield table(v, INT, f, W, P)
        yield star(v, INT, fl[:32], [-400, -101, -30, -13, -1, 0, 1, 6, 30], [-1, 0, 1, 4, 12])
    for v in flts:
        if v in (5e-324, 1.7976931348623157e308) and not th: fs = fl[:8]
        else: fs = fl
        for f in chunks(fs, 8): yield table(v, FLT, f, W, P)
        yield star(v, FLT, fl[:16], [-400, -101, -30, -13, -1, 0, 1, 6, 30], [-1, 0, 1, 4, 12])
    sfl = [f for f in fl if not ('-' in f and '0' in f)]
    for v in strs:
        for f in chunks(sfl, 20):
            yield table(v, 'sSq', f, W, P)
            yield star(v, 'sSq', [x for x in f if '0' not in x], [-400, -101, -30, -13, -1, 0, 1, 6, 30], [-1, 0, 1, 4, 12])
    for v in ['A', '%', ' ', '~']:
        for f in chunks(sfl, 20): yield table(v, 'cC', f, W, [None, 0, 3])
    yield Case('codes', 'var i, r=[]; for (i=1;i<128;i++) { r.push(format("%c%3C%-2c|",i,i,i)); } for (i=1;i<256;i++) { r.push(format("%C%4C",i,i)); } puts(r.join(""));',
               ''.join('%c  %c%c |' % (i, i, i) for i in range(1, 128)) + ''.join('%c   %c' % (i, i) for i in range(1, 256)), 600)
    # buffer limits of the numbers, of the specification and of the result
    big = [22, 23, 24, 25, 98, 99, 100, 101, 254, 255, 256, 299, 300, 319, 320, 321, 322, 400, 1000, 4095, 4096, 8191]
    for w in big:
        for v in (5, -2**63, 2**62): yield table(v, 'dox', ['', '-', '0', '+#'], [w], [None, 0, 30])
        for v in (1.5, -1.7976931348623157e308, 1e-300): yield table(v, 'aefg', ['', '-', '0+'], [w], [None, 0, 30])
        for v in (5, 1.7976931348623157e308, -1e-300): yield table(v, 'dx' if v == 5 else 'aefg', ['', '0', '#-'], [0, 1, w + 20], [w])
        yield table('é', 'sS', ['', '-', '0'], [w], [None, 0, 1])
        yield table('ab' * (w + 1), 's', ['', '-'], [0, 10, 2 * w + 5], [None, w, 2 * w, 2 * w + 1, 2 * w + 2, 2 * w + 3])
    # sequences
    Q = pieces(th)
    for n in (1, 2) if not th else (1, 2, 3):
        for t in itertools.product(Q if n < 3 else Q[:16], repeat=n):
            f = ''.join(x[0] for x in t); args = [a for x in t for a in x[1]]; r = ''.join(x[2] for x in t)
            al = ''.join(',' + ja(a) for a in args)
            s = "puts(format(%s%s));" % (jl(f), al)
            e = [r]
            # one argument too few is refused, one too many is ignored
            if args:
                s += " Z(function() { return format(%s%s); });" % (jl(f), ''.join(',' + ja(a) for a in args[:-1])); e.append('error')
            s += ' Z(function() { return format(%s%s,"extra"); });' % (jl(f), al); e.append('ok %d %s' % (len(r), r))
            s += ' printf(%s%s);' % (jl(f + '\n'), al); e.append(r)
            s += ' Z(function() { return format(%s%s); });' % (jl(f + '%'), al); e.append('error')
            s += ' Z(function() { return format(%s%s, 5); });' % (jl(f + '%y'), al); e.append('error')
            s += ' Z(function() { return format(%s%s); });' % (jl(f), al); e.append('ok %d %s' % (len(r), r))
            yield Case('sequence ' + f[:200] + repr(args)[:100], s, '\n'.join(e), 7)
    # arguments of another type are refused
    vals = ['5', '1.5', '"ab"', 'true', 'null', '[1]', '{a:1}', 'function() {}']
    for cv in INT + FLT:
        for i, v in enumerate(vals):
            if i >= 2: yield Case('type %s %s' % (cv, v), 'Z(function() { return format("%%%s",%s); });' % (cv, v), 'error')
    for i, v in enumerate(vals):
        if i != 2:
            yield Case('type s ' + v, 'Z(function() { return format("%%s",%s); });' % v, 'error')
    for w in '"a"', 'true', 'null':
        yield Case('width ' + w, 'Z(function() { return format("%%*d",%s,5); });' % w, lambda g: None if g == 'error' or w == 'null' or w == 'true' else 'expected an error, got %r' % g)
    for v, j, q in [('[1,"x"]', '[ 1, x ]', '[ 1, "x" ]'), ('5', '5', '5'), ('true', 'true', 'true'), ('null', 'null', 'null'), ('{a:1}', '{ a:1 }', '{ a:1 }'), ('[]', '[]', '[]')]:
        for fmt in ('%q', '%S'):
            yield Case('%s %s' % (fmt, v), 'puts(format("<%%%s>",%s),format("<%%20%s>",%s),format("<%%-20.3%s>",%s));' % (fmt[1], v, fmt[1], v, fmt[1], v),
                       (lambda x: '<%s> <%s> <%s>' % (x, x.rjust(20), x[:3].ljust(20)))(q if fmt == '%q' else j))
    for ch in [chr(k) for k in range(33, 127) if chr(k) not in 'diuoxXaAeEfgGcCsSq%hl*.0123456789-+#\'' ]:
        yield Case('unknown ' + ch, 'Z(function() { return format(%s,5); });' % jl('a%5' + ch), 'error')


def main():
    c = Ctx('A07')
    c.assumptions += ['snprintf of the C library']
    n = c.run_cases(gen(c.thorough), 24, PROLOG)
    c.cov['states'] = n
    c.finish()


if __name__ == '__main__':
    main()
