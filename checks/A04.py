"""Numbers: every conversion of every value of a boundary set, every pair under the two-argument functions and operators,
and every string up to a length over the characters of numbers through each parser; against the C library."""
import ctypes, itertools, math
from mc.core import Ctx, Case
from checks.A03 import jl, words

libm = ctypes.CDLL('libm.so.6')
libc = ctypes.CDLL('libc.so.6')
D = ctypes.c_double
F1 = ['abs:fabs', 'acos', 'asin', 'atan', 'ceil', 'cos', 'exp', 'floor', 'log', 'round', 'sin', 'sqrt', 'tan']
ONE = []
for f in F1:
    n, _, c = f.partition(':')
    fn = getattr(libm, c or n); fn.restype = D; fn.argtypes = [D]
    ONE.append((n, fn))
libm.atan2.restype = D; libm.atan2.argtypes = [D, D]
libm.powl.restype = ctypes.c_longdouble; libm.powl.argtypes = [ctypes.c_longdouble, ctypes.c_longdouble]
libm.fmod.restype = D; libm.fmod.argtypes = [D, D]
libc.strtoll.restype = ctypes.c_longlong; libc.strtoll.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_int]
libc.strtod.restype = D; libc.strtod.argtypes = [ctypes.c_void_p, ctypes.c_void_p]
libc.srand48.argtypes = [ctypes.c_long]
libc.drand48.restype = D

PROLOG = r'''
function X(d) { return isNaN(d)?'NaN':d.toExponential(17); }
function V(d) {
  var i, r, k;
  puts(''+d, d.toString(), JSON.stringify([d]), [d].join(), typeof d);
  r=[]; for (i=0;i<23;i++) { r.push(d.toFixed(i)); } for (i=98;i<101;i++) { r.push(d.toFixed(i)); } puts(r.join(' '));
  r=[]; for (i=0;i<23;i++) { r.push(d.toExponential(i)); } for (i=98;i<101;i++) { r.push(d.toExponential(i)); } puts(r.join(' '));
  puts(d.isFinite(), d.isInteger(), d.isNaN(), d.isSafeInteger(), isNaN(d), isFinite(d), d.toFixed());
  puts([X(Math.abs(d)),X(Math.acos(d)),X(Math.asin(d)),X(Math.atan(d)),X(Math.ceil(d)),X(Math.cos(d)),X(Math.exp(d)),X(Math.floor(d)),X(Math.log(d)),X(Math.round(d)),X(Math.sin(d)),X(Math.sqrt(d)),X(Math.tan(d))].join(' '));
  puts(X(d), X(Number(d)), X(new Number(d)), X(parseFloat(d)));
}
function R(d) { puts(d.toString(16), d.toString(8), d.toString(10), parseInt(d)); }
function T(a,b) {
  puts(X(Math.atan2(a,b)), X(Math.pow(a,b)), X(Math.max(a,b)), X(Math.min(a,b)), X(Math.max(a,b,a)), X(Math.min(b,a,b,a)));
  puts(X(a+b), X(a-b), X(a*b), X(a/b), a<b, a<=b, a>b, a>=b, a==b, a!=b, a===b, a!==b);
}
function S(s) {
  puts(X(parseFloat(s)), X(Number(s)), isNaN(s), isFinite(s));
  puts(parseInt(s));
}
function B(s, z) {
  var b, r=[]; for (b=2;b<37;b++) { if (z && b!=16) { continue; } r.push(parseInt(s,b)); } puts(r.join(' '));
}
function Q(n) { var i, r=[]; r.push(Math.srand(n)); for (i=0;i<4;i++) { r.push(X(Math.random())); } puts(r.join(' ')); }
'''


def b(x): return 'true' if x else 'false'


def X(x):
    if x != x: return 'NaN'
    if math.isinf(x): return 'inf' if x > 0 else '-inf'
    return '%.17e' % x


def isint(x):
    return x == 0 or (abs(x) >= 2.2250738585072014e-308 and not math.isinf(x) and abs(x) < 2.0**63 and x == int(x)) or x == -2.0**63


def text(x):
    if x != x: return 'NaN'
    if math.isinf(x): return 'Infinity' if x > 0 else '-Infinity'
    return '%d' % int(x) if isint(x) else '%.15g' % x


def rep(x):
    """A JS expression with exactly the value x."""
    if x != x: return 'NaN'
    if math.isinf(x): return 'Infinity' if x > 0 else '(0-Infinity)'
    if x == 0 and math.copysign(1, x) < 0: return '(0*-1)'
    return ('(0-%r)' % -x) if x < 0 else repr(x)


def ff(x, p): return ('inf' if x > 0 else '-inf') if math.isinf(x) else '%.*f' % (p, x)
def fe(x, p): return ('inf' if x > 0 else '-inf') if math.isinf(x) else '%.*e' % (p, x)


def value(x):
    t = text(x)
    js = 'null' if x != x or math.isinf(x) else t
    PR = list(range(23)) + [98, 99, 100]
    o = [' '.join([t, '+' + t if t == 'Infinity' else t, '[ %s ]' % js, t, 'number'])]  # tests fix +Infinity
    if x == x:
        o.append(' '.join(ff(x, p) for p in PR))
        o.append(' '.join(fe(x, p) for p in PR))
    fin = not math.isinf(x) and x == x
    o.append(' '.join([b(fin), b(isint(x)), b(x != x), b(isint(x) and abs(x) <= 9007199254740991), b(x != x), b(fin), ff(x, 0)]))
    o.append(' '.join(X(f(x)) for n, f in ONE))
    o.append(' '.join([X(x)] * 4))
    return '\n'.join(o)


def radix(x):
    w = int(x)
    u = w & (2**64 - 1)
    return '%x %o %d %d' % (u, u, w, w)


def div(a, c):
    if c == 0:
        return float('nan') if a == 0 or a != a else math.copysign(float('inf'), a) * math.copysign(1, c)
    return a / c


def mul(f):
    try: return f()
    except OverflowError: return float('inf')


def pair(a, c):
    pw = libm.powl(a, c)
    mx = c if a < c else a
    mn = c if a > c else a
    o = [' '.join([X(libm.atan2(a, c)), X(pw), X(mx), X(mn), X(mx), X(mn)])]
    inf = float('inf')
    o.append(' '.join([X(a + c), X(a - c), X(a * c), X(div(a, c)), b(a < c), b(a <= c), b(a > c), b(a >= c), b(a == c), b(a != c), b(a == c), b(a != c)]))
    return '\n'.join(o)


def strto(s, base=None):
    buf = ctypes.create_string_buffer(s.encode())
    p = ctypes.addressof(buf)
    e = ctypes.c_void_p()
    if base is None:
        v = libc.strtod(p, ctypes.byref(e))
    else:
        v = libc.strtoll(p, ctypes.byref(e), base)
    return v, (e.value or p) - p


def strings(s):
    v, n = strto(s)
    f = v if n == len(s) or n == 0 and s == '' else float('nan')
    if s == '': f = 0.0
    o = [' '.join([X(f), X(f), 'true false'])]  # isNaN and isFinite look at the type of a string
    w, m = strto(s, 0)
    o.append('NaN' if m == 0 else '%d' % int(float(w)))
    return '\n'.join(o)


def bases(s, z):
    r = []
    for k in range(2, 37):
        if z and k != 16: continue
        w, m = strto(s, k)
        r.append('NaN' if m == 0 else '%d' % int(float(w)))
    return ' '.join(r)


def randoms(n):
    libc.srand48(n)
    return ' '.join(['%d' % n] + [X(libc.drand48()) for _ in range(4)])


def values(th):
    v = {0.0, 0.1, 0.2, 0.3, 0.5, 0.05, 0.045, 0.995, 9.995, 1.005, 2.675, 1 / 3, 2 / 3, 1e-5, 123.456, 0.1 + 0.2, 1e23, 4.35, 8.345,
         99.5, 999999.5, 0.000001, 1e-7, 1.7976931348623157e308, 2.2250738585072014e-308, 2.225073858507201e-308, 5e-324, 1e-320, 1e100, 1e-100,
         3.141592653589793, 2.718281828459045, 0.9999999999999999, 1.0000000000000002, 123456789012345680.0, 999999999999999.9, 99999999999999.95}
    for k in (0, 1, 2, 3, 4, 7, 8, 15, 16, 30, 31, 32, 33, 52, 53, 54, 62, 63, 64, 65, 100, 1023) if not th else list(range(0, 70)) + list(range(70, 1024, 31)) + [1023]:
        for d in (-1.5, -1, -0.5, 0, 0.5, 1, 1.5):
            v.add(2.0**k + d)
        v.add(2.0**-k)
    for k in range(-22, 26, 1 if th else 3):
        for m in (1, 5, 9.5, 1.25, 9.999):
            v.add(float('%re%d' % (m, k)))
    for i in range(0, 400 if th else 40):
        v.add(float(i)); v.add(i / 8); v.add(i + 0.05)
    v.add(float('inf'))
    v |= {-x for x in v}
    v = sorted(v)
    return v


def few(th):
    v = [0.0, 0.5, 1.0, 1.5, 2.0, 3.0, 10.0, 0.1, 1 / 3, 2.0**31, 2.0**32 + 0.5, 2.0**53, 2.0**63, 1e300, 1e-300, 5e-324, 1.7976931348623157e308, float('inf'), 255.0, 1e15, 1e16 + 2]
    if th: v += [7.0, 0.999, 1.0000000000000002, 2.0**52 + 1, 2.0**64, 1e-20, 4.0, 1022.0, 1023.0, 1074.0, 1e21, 2.2250738585072014e-308, 100.0, 99999.0]
    return v + [-x for x in v if x]


def gen(th):
    for x in values(th):
        e = rep(x)
        yield Case('V %r' % x, 'V(%s);' % e, value(x), 90)
        if abs(x) < 2.0**63:
            yield Case('R %r' % x, 'R(%s);' % e, radix(x), 4)
    yield Case('V NaN', "var d=NaN; puts(''+d, d.toString(), JSON.stringify([d]), [d].join(), typeof d); puts(d.isFinite(), d.isInteger(), d.isNaN(), d.isSafeInteger(), isNaN(d), isFinite(d));",
               'NaN NaN [ null ] NaN number\nfalse false true false true false', 6)
    F = few(th)
    for a in F:
        for c in F:
            if math.isinf(a) and math.isinf(c) or 0 in (a, c) and (math.isinf(a) or math.isinf(c) or a == c): continue  # NaN results of operators raise
            yield Case('T %r %r' % (a, c), 'T(%s,%s);' % (rep(a), rep(c)), pair(a, c), 20)
    S = [s for n in range(0, 5 if not th else 6) for s in (''.join(t) for t in itertools.product('018.xe- ' if n > 3 else '0189afx.e-+ z\t', repeat=n))]
    S += ['%s%d%s' % (p, n, q) for p in ('', '-', '+', ' ', '0x', '0') for n in (2**31 - 1, 2**31, 2**32, 2**53 + 1, 2**61, 777, 10**15) for q in ('', 'e1', '.5', 'e-3', ' ', 'x', '.', 'e', 'e+', 'E2', '\n')]
    S += ['Infinity', '-Infinity', 'infinity', 'inf', 'nan', 'NaN', '1e308', '1e309', '-1e309', '1e-400', '0x1p3', '0x.8', '1' * 17, '0.' + '1' * 40, '1' * 300, '1_000', '１', 'é', '1é']
    for i in range(0, len(S), 4):
        ch = S[i:i + 4]
        src, exp = [], []
        for s in ch:
            lim = abs(strto(s, 0)[0]) < 2**62
            if not lim: continue
            if s == '': continue
            src.append('S(%s);' % jl(s)); exp.append(strings(s))
        for s in ch:
            if not s or any(abs(strto(s, k)[0]) >= 2**62 for k in (10, 16, 36)): continue
            z = s.startswith('0x')
            src.append('B(%s,%s);' % (jl(s), b(z))); exp.append(bases(s, z))
        if src: yield Case('S %r' % ch, '\n'.join(src), '\n'.join(exp), 35 * len(src))
    for n in list(range(-20, 100)) + [2**31 - 1, 2**31, 2**32, 2**40 + 5]:
        yield Case('Q %d' % n, 'Q(%d);' % n if n >= 0 else 'Q(0-%d);' % -n, randoms(n), 5)
    for e, w in [('MAX_VALUE', 1.7976931348623157e308), ('MIN_VALUE', 2.2250738585072014e-308), ('POSITIVE_INFINITY', float('inf')), ('NEGATIVE_INFINITY', float('-inf'))]:
        yield Case('Number.' + e, 'puts(X(Number.%s));' % e, X(w))
    for e, w in [('PI', math.pi), ('E', math.e), ('LN2', math.log(2)), ('LN10', math.log(10)), ('LOG2E', math.log2(math.e)), ('LOG10E', math.log10(math.e)), ('SQRT2', math.sqrt(2)), ('SQRT1_2', math.sqrt(.5))]:
        yield Case('Math.' + e, 'puts(X(Math.%s));' % e, X(w))
    # number literals, in the spellings the language has
    for s, w in [('017', 15), ('0x1F', 31), ('0xfF', 255), ('.5', .5), ('5.', 5), ('1.e3', 1000), ('1E5', 1e5), ('1e+22', 1e22), ('1e-7', 1e-7), ('1E-2', .01), ('00', 0), ('0.0', 0),
                 ('0x0', 0), ('0xFFFFFFFF', 2**32 - 1), ('0777', 511), ('9007199254740993', 9007199254740992), ('1e308', 1e308), ('123456789.125e2', 12345678912.5)]:
        yield Case('literal ' + s, 'puts(X(%s));' % s, X(float(w)))


def main():
    c = Ctx('A04')
    c.assumptions += ['libm and libc of the machine, which the interpreter is linked with']
    n = c.run_cases(gen(c.thorough), 60, PROLOG)
    c.cov['states'] = n
    c.finish()


if __name__ == '__main__':
    main()
