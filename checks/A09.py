"""Dates: every day of a span of years, the seconds around every boundary and every zone change, through strftime and
strptime in UTC and in zones with and without daylight saving; formats, fractions and offsets in all combinations."""
import calendar, itertools, os, time
from mc.core import Ctx, Case
from checks.A03 import jl

PROLOG = r'''
function F(t) { puts(strftime(t,{utc:true}), strftime(t,{utc:true,iso:true}), strftime(t), strftime(t,{fmt:'%d.%m.%y %H-%M-%S %j %w %a %b %p %I %e'}), strftime(t,{utc:true,fmt:'%s%%|%f|%Y'}).length); }
function P(t) { var s=strftime(t,{utc:true,iso:true}), r=strptime(s,{utc:true}); puts(s, r, strptime(strftime(t,{utc:true}),{utc:true}), r===t, strptime(s,{utc:true,secs:true}), strptime(s,{utc:true,fmt:'%Y-%m-%dT%H:%M:%S.%f'}), strftime(Math.floor(t/1000),{utc:true,secs:true})); }
function L(s) { puts(strptime(s)); }
function L2(d,h,s) { var o={utc:true}; puts(strptime(d+' '+h+s,o),strptime(d+'T'+h+s,o),strptime(d+' '+h,o),strptime(d+'T'+h,o),strptime(d,o)); }
function U(s,f) { puts(strptime(s,{utc:true}), f?strptime(s,{utc:true,fmt:f}):'-'); }
'''

ZONES = ['UTC', 'America/New_York', 'Europe/Berlin', 'Australia/Lord_Howe', 'Asia/Kolkata', 'Africa/Casablanca', 'Pacific/Apia', 'XYZ-5:45', 'ABC3DEF,M10.3.0/0,M2.3.0/0', 'Asia/Kathmandu', 'Europe/Dublin', 'America/St_Johns']


def utc(ms):
    s = ms // 1000
    days, r = divmod(s, 86400)
    # civil from days
    z = days + 719468
    era = z // 146097; doe = z - era * 146097
    yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
    y = yoe + era * 400; doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
    mp = (5 * doy + 2) // 153; d = doy - (153 * mp + 2) // 5 + 1; m = mp + (3 if mp < 10 else -9)
    return (y + (m <= 2), m, d, r // 3600, r % 3600 // 60, r % 60, ms % 1000)


def setz(z): os.environ['TZ'] = z; time.tzset()


def fmt(ms):
    y, m, d, H, M, S, f = utc(ms)
    a = '%d-%02d-%02d %02d:%02d:%02d' % (y, m, d, H, M, S)
    i = '%d-%02d-%02dT%02d:%02d:%02d.%03d' % (y, m, d, H, M, S, f)
    l = time.localtime(ms // 1000)
    n = len(str(ms // 1000)) if 0 else None
    # %s of a broken-down UTC time is read in the local zone: only the shape of this one is compared
    import time as t
    k = len(time.strftime('%s', time.gmtime(ms // 1000)))
    return ' '.join([a, i, time.strftime('%Y-%m-%d %H:%M:%S', l), time.strftime('%d.%m.%y %H-%M-%S %j %w %a %b %p %I %e', l), str(k + 2 + 3 + 1 + len(str(y)))])


def parse(ms):
    y, m, d, H, M, S, f = utc(ms)
    a = '%d-%02d-%02d %02d:%02d:%02d' % (y, m, d, H, M, S)
    i = '%d-%02d-%02dT%02d:%02d:%02d.%03d' % (y, m, d, H, M, S, f)
    s = ms // 1000 * 1000
    q = int(ms / 1000)      # out in seconds: cut towards zero
    return ' '.join(str(x) for x in [i, ms, s, 'true', q, ms, a])


def times(th, zone):
    """Interesting moments in ms."""
    v = set()
    y0, y1 = (1890, 2110) if th else (1900, 2101)
    for y in range(y0, y1):
        for (m, d) in [(1, 1), (2, 28), (2, 29), (3, 1), (12, 31), (6, 30)]:
            if (m, d) == (2, 29) and not calendar.isleap(y): continue
            b = calendar.timegm((y, m, d, 0, 0, 0))
            for k in (-1, 0, 86399) if th or y % 4 == 0 or 1968 < y < 1973 or 2035 < y < 2041 else (0,):
                v.add((b + k) * 1000)
    for y in (1582, 1600, 1700, 1800, 1900, 2000, 2037, 2038, 2100, 2200, 2400, 3000, 9999):
        if y >= 1000:
            for k in (-1, 0, 1): v.add((calendar.timegm((y, 1, 1, 0, 0, 0)) + k) * 1000)
    for b in (0, 2**31, -2**31, 2**32, 10**9):
        for k in (-2, -1, 0, 1, 2): v.add((b + k) * 1000)
    for k in (-1001, -1000, -999, -501, -1, 1, 9, 10, 99, 100, 999, 1001): v.add(k)
    for k in (1, 12, 123, 999): v.add(1600000000000 + k); v.add(-1600000000000 - k)
    return sorted(v)


def changes(zone):
    setz(zone)
    r = []
    for y in range(1960, 2038):
        t0 = calendar.timegm((y, 1, 1, 0, 0, 0)); p = time.localtime(t0).tm_gmtoff
        for d in range(1, 366):
            t = t0 + d * 86400
            q = time.localtime(t).tm_gmtoff
            if q != p:
                lo, hi = t - 86400, t
                while hi - lo > 1:
                    mid = (lo + hi) // 2
                    if time.localtime(mid).tm_gmtoff == p: lo = mid
                    else: hi = mid
                r.append(hi)
            p = q
    return r


def chunks(l, n):
    for i in range(0, len(l), n): yield l[i:i + n]


def gen(th, zone):
    setz(zone)
    T = times(th, zone)
    ch = changes(zone)
    if not th: ch = ch[:6] + ch[-8:]
    near = sorted({(c + k) * 1000 for c in ch for k in (-7200, -3600, -1801, -1800, -1, 0, 1, 1799, 1800, 3599, 3600, 7200)})
    js = lambda t: str(t) if t >= 0 else '(0-%d)' % -t
    for c in chunks(T + near, 40):
        yield Case('%s format %d..' % (zone, c[0]), '\n'.join('F(%s);' % js(t) for t in c), '\n'.join(fmt(t) for t in c), 5 * len(c))
        yield Case('%s parse %d..' % (zone, c[0]), '\n'.join('P(%s);' % js(t) for t in c), '\n'.join(parse(t) for t in c), 7 * len(c))
    # local times, except those that occur twice or never
    loc = []
    for t in [x for x in T if abs(x) < 4e12] + near:
        s = t // 1000
        l = time.localtime(s)
        if sum(1 for k in range(-3, 4) for q in ((s + k * 1800),) if k and time.localtime(q)[:6] == l[:6]) or l.tm_year < 1000: continue
        try:
            if int(time.mktime(l[:8] + (-1,))) != s: continue
        except OverflowError: continue
        loc.append((time.strftime('%Y-%m-%d %H:%M:%S', l), s * 1000))
    for c in chunks(loc, 60):
        yield Case('%s local %s..' % (zone, c[0][0]), '\n'.join('L("%s");' % s for s, t in c), '\n'.join(str(t) for s, t in c), len(c))


def days(th):
    """Each day of a long span, in UTC."""
    for a in range(1899 if th else 1996, 2101 if th else 2026):
        src, exp = [], []
        for m in range(1, 13):
            for d in range(1, calendar.monthrange(a, m)[1] + 1):
                t = calendar.timegm((a, m, d, 13, 14, 15)) * 1000 + 7
                j = str(t) if t >= 0 else '(0-%d)' % -t
                src.append("t=%s; s=strftime(t,{utc:true,iso:true}); puts(s,strptime(s,{utc:true})===t,strftime(t,{utc:true,fmt:'%%j %%w'}));" % j)
                exp.append('%d-%02d-%02dT13:14:15.007 true %s' % (a, m, d, time.strftime('%j %w', time.gmtime(t // 1000))))
        yield Case('days of %d' % a, 'var s,t;\n' + '\n'.join(src), '\n'.join(exp), 3 * len(src))


def forms(th):
    """Formats, fractions, offsets: all combinations."""
    base = (2019, 2, 28, 23, 59, 58)
    b = calendar.timegm(base)
    D, H = '2019-02-28', ['23:59:58', '23:59']
    for sep in ' T':
        for h in H:
            for fr in ['', '.000', '.001', '.010', '.123', '.999', '.1234', '.123456', '.999999999']:
                if fr and h == '23:59': continue
                for off in ['', '+00:00', '-00:00', '+01:00', '-01:00', '+05:45', '-09:30', ' +01:00', ' -12:00', '+14:00', ' ', 'Z']:
                    s = D + sep + h + fr + off
                    t = (b if h == H[0] else b - 58) * 1000 + (int(fr[1:4]) if fr else 0)
                    o = off.strip()
                    if o and o != 'Z': t -= (1 if o[0] == '+' else -1) * (int(o[1:3]) * 3600 + int(o[4:6]) * 60) * 1000
                    f = '%Y-%m-%d' + sep + ('%H:%M:%S' if h == H[0] else '%H:%M')
                    yield Case('form ' + s, 'U(%s,%s);' % (jl(s), jl(f)), '%d %d' % (t, t), 2)
                    if fr:
                        yield Case('form %%f %s' % s, 'U(%s,%s);' % (jl(s), jl(f + '.%f')), '%d %d' % (t, t), 2)
    for sg in '+-':
        src, exp = [], []
        for hh in range(0, 24):
            for mm in range(0, 60, 1 if th else 5):
                src.append('U("2019-02-28 23:59:58%s%02d:%02d","%%Y-%%m-%%d %%H:%%M:%%S");' % (sg, hh, mm))
                t = (b - (1 if sg == '+' else -1) * (hh * 3600 + mm * 60)) * 1000
                exp.append('%d %d' % (t, t))
        yield Case('offsets ' + sg, '\n'.join(src), '\n'.join(exp), 2 * len(src))
    for y, m, d, H, M, S in itertools.product((1969, 1970, 2000, 2001), (1, 2, 12), (1, 9, 28), (0, 9, 23), (0, 9, 59), (0, 9, 59)):
        t = calendar.timegm((y, m, d, H, M, S)) * 1000
        yield Case('forms %r' % ((y, m, d, H, M, S),), 'L2("%d-%02d-%02d","%02d:%02d",":%02d");' % (y, m, d, H, M, S), '%d %d %d %d %d' % (t, t, t - S * 1000, t - S * 1000, t - (S + 60 * M + 3600 * H) * 1000), 5)
    yield Case('date', 'U("2019-02-28","%Y-%m-%d");', '%d %d' % ((b - 86398) * 1000, (b - 86398) * 1000), 2)
    for s, f in [('28/02/2019 23h59m58', '%d/%m/%Y %Hh%Mm%S'), ('Thu Feb 28 23:59:58 2019', '%a %b %d %H:%M:%S %Y'), ('20190228235958', '%Y%m%d%H%M%S'), ('02/28/19 11:59:58 PM', '%m/%d/%y %I:%M:%S %p'), ('059', None)]:
        if f: yield Case('fmt ' + f, 'puts(strptime(%s,{utc:true,fmt:%s}), strptime(%s,%s)-strptime("2019-02-28 23:59:58"));' % (jl(s), jl(f), jl(s), jl(f)), '%d 0' % (b * 1000), 2)
    for s in ['', ' ', 'x', '2019', '2019-', '2019-13-01', '2019-00-01', '2019-01-32', '2019-01-01 25:00', '25:00', '12', '12:', 'T12:00', '-', '20-', 'é', '99:99:99', 'Now', 'today', '%Y', '.', '.123', '+01:00']:
        if s in ('', '2019-01-01 25:00', ' '): continue
        yield Case('bad ' + s, 'puts(strptime(%s), strptime(%s,{utc:true}), strptime(%s,{utc:true,fmt:"%%Y-%%m-%%d %%H:%%M:%%S"}));' % (jl(s), jl(s), jl(s)), 'NaN NaN NaN', 3)
    for n in (2, 3, 4, 8, 100, 1000):
        for ch in '+-':
            yield Case('signs %d' % n, 'puts(strptime("2019-02-28 23:59:58"+"%s".repeat(%d),{utc:true}));' % (ch, n), str(b * 1000), 1)
    # time of day alone is on the same day for each form
    yield Case('time of day', 'var a=strptime("00:00",{utc:true}); puts(strptime("12:34:56",{utc:true})-a, strptime("12:34",{utc:true})-a, strptime("23:59:59",{utc:true})-a, strptime("00:00:01.250",{utc:true})-a);', '45296000 45240000 86399000 1250', 4)
    yield Case('mixed', 'var e=0; try { strftime(0,{iso:true,fmt:"%Y"}); } catch(x) { e=1; } puts(e, strftime(0,{utc:true,fmt:"%H:%M:%S"}), strftime(1e12,{utc:true,iso:true}));', '1 00:00:00 2001-09-09T01:46:40.000', 3)
    # positions of %f and lengths of the format
    for n in (0, 1, 5, 100, 500, 1000):
        p = 'x' * n
        yield Case('pad %d' % n, 'puts(strftime(1234,{utc:true,fmt:"%s%%S.%%f%s"}), strftime(1234,{utc:true,fmt:"%s%%S"}));' % (p, p, p), '%s01.234%s %s01' % (p, p, p), 2)
    for t, w in [(0, '000'), (7, '007'), (70, '070'), (700, '700'), (1999, '999'), (-1, '999'), (-1000, '000'), (-1999, '001'), (1e12 + 5, '005')]:
        j = '%d' % t if t >= 0 else '(0-%d)' % -t
        for f, e in [('%S|%f', '|' + w), ('a%f', 'a' + w), ('%M%f%M', w), ('%Y %f %Y', ' %s ' % w), ('%%%f', '%' + w)]:
            if f == '%%%f': continue
            yield Case('%%f %r %s' % (t, f), 'puts(strftime(%s,{utc:true,fmt:"%s"}).indexOf("%s")>=0);' % (j, f, e), 'true', 1)
    # the clock
    yield Case('now', 'var a=Util.getpid(), n=strptime("now"), m=strptime(); puts(m>=n, m-n<5000, n>1.6e12, strftime(n,{utc:true}).length, strftime().length, strftime(null,"%Y")===strftime(n,"%Y"));', 'true true true 19 19 true', 3)


def main():
    c = Ctx('A09')
    c.assumptions += ["the C library's zone rules (also used by the model for local times)", 'C locale']
    os.environ['LC_ALL'] = 'C'
    n = 0
    for z in ZONES if c.thorough else ZONES[:9]:
        cs = list(gen(c.thorough, z))
        if z in ('UTC', 'America/New_York', 'Europe/Berlin') or c.thorough:
            setz(z)
            cs += list(forms(c.thorough)) + list(days(c.thorough and z == 'UTC'))
        n += c.run_cases(cs, 20, PROLOG, env={'TZ': z, 'LC_ALL': 'C'})
        if c.stop: break
    c.cov['states'] = n
    c.finish()


if __name__ == '__main__':
    main()
