"""Codecs: base64, hex, CRC-32, the seven hashes, XXTEA encryption and URI encoding, for every length around every block and
line size, every byte value in every position of a group, all short strings, and the malformed inputs each decoder refuses."""
import base64, hashlib, itertools, struct, zlib
from mc.core import Ctx, Case
from checks.A03 import jl

TYPES = ['sha256', 'sha1', 'md5', 'sha3_224', 'sha3_384', 'sha3_512', 'sha3_256']
PROLOG = r'''
var TY=['sha256','sha1','md5','sha3_224','sha3_384','sha3_512','sha3_256'];
function U(h) { return h===''?'':Util.hexStr(h,true); }
function Hx(s) { return s===''?'':Util.hexStr(s); }
function D(h) {
  var d=U(h), e=Util.base64(d), i;
  puts(e.split('\n').join('|'), Hx(Util.base64(e,true)), Hx(d), Util.crc32(d), Util.crc32(d,1), Util.crc32(d,4294967295));
  for (i=0;i<TY.length;i++) { puts(Util.hash(d,{type:TY[i]})); }
  puts(Util.hash(d), Hx(Util.hash(d,{noHex:true})), Hx(Util.hash(d,{type:'sha3_384',noHex:true})));
}
function B(h) { var d=U(h), e=Util.base64(d); puts(e, Hx(Util.base64(e,true)), Hx(d), Util.crc32(d)); }
function E(h, k) { var d=U(h), x=U(k), e=Util.encrypt(d,x); puts(Hx(e), Hx(Util.decrypt(e,x)), Hx(d)); }
function Z(f) { try { puts('ok '+f()); } catch(e) { puts('error'); } }
function R(s) { var e=encodeURI(s), c=encodeURIComponent(s); puts('['+e+'|'+c+'|'+decodeURIComponent(c)+'|'+decodeURI(e)+']'); }
'''


def crc(d, s=0): return zlib.crc32(d, s) & 0xffffffff


def b64(d, sep='|'):
    t = base64.b64encode(d).decode()
    return ''.join(t[i:i + 72] + (sep if len(t) - i >= 72 else '') for i in range(0, len(t), 72))


def H(d, t): return getattr(hashlib, t)(d).digest()


def digests(d):
    o = [' '.join([b64(d), d.hex(), d.hex(), str(crc(d)), str(crc(d, 1)), str(crc(d, 0xffffffff))])]
    o += [H(d, t).hex() for t in TYPES]
    o.append(' '.join([H(d, 'sha256').hex(), H(d, 'sha256').hex(), H(d, 'sha3_384').hex()]))
    return '\n'.join(o)


def btea(v, k):
    M = 0xffffffff
    n = len(v); rounds = 6 + 52 // n; s = 0; z = v[-1]
    for _ in range(rounds):
        s = (s + 0x9e3779b9) & M; e = (s >> 2) & 7
        for p in range(n):
            y = v[(p + 1) % n]
            v[p] = z = (v[p] + (((z >> 5 ^ y << 2) + (y >> 3 ^ z << 4)) & M ^ ((s ^ y) + (k[(p & 7) ^ e] ^ z)) & M)) & M
    return v


def enc(d, k):
    pad = max(-len(d) % 4, 8 - len(d)) if len(d) < 8 else -len(d) % 4
    b = d + b'\0' * pad
    key = k if len(k) == 32 else hashlib.sha256(k).digest()
    n = len(b) // 4
    return struct.pack('<%dI' % n, *btea(list(struct.unpack('<%dI' % n, b)), struct.unpack('<8I', key))) + bytes([pad])


RES = ";,/?:@&=+$#"
MARK = "-_.!~*'()"


def uri(s):
    f = lambda comp: ''.join('%%%02x' % ord(c) if c == '%' or c in MARK or comp and c in RES else c for c in s)
    e, c = f(False), f(True)
    return '[%s|%s|%s|%s]' % (e, c, s, s.replace('+', ' '))


def undo(s, comp):
    o, i = bytearray(), 0
    b = s.encode()
    while i < len(b):
        if b[i:i + 1] == b'%' and len(b) - i >= 3:
            v = int(b[i + 1:i + 3], 16)
            if not comp and chr(v) in RES: o += b'%'; i += 1; continue
            o.append(v); i += 3
        else:
            o += b' ' if b[i:i + 1] == b'+' else b[i:i + 1]; i += 1
    return o.decode()


def gen(th):
    pats = [lambda n: bytes((i * 7 + n) % 256 for i in range(n)), lambda n: bytes(255 for i in range(n)), lambda n: bytes((i * i + 3 * i + n) % 251 for i in range(n)), lambda n: bytes(n)]
    lens = list(range(1, 300)) + [511, 512, 513, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8191, 8192, 65536]
    if th: lens += list(range(300, 1200)) + [16384, 65535, 65537, 131072]
    for n in lens:
        for j, p in enumerate(pats):
            if n > 4000 and j > 1: continue
            d = p(n)
            yield Case('digest %d %d' % (n, j), 'D("%s");' % d.hex(), digests(d), 12)
    # every byte in every place of a group of three, and of each block's last bytes
    for n in (1, 2, 3, 4, 55, 63, 71, 103, 135, 143):
        for pos in {0, 1, 2, n - 1}:
            if pos >= n: continue
            src, exp = [], []
            for v in range(256):
                d = bytearray(b'a' * n); d[pos] = v
                src.append('B("%s");' % d.hex()); exp.append('%s %s %s %d' % (b64(bytes(d), '\n'), d.hex(), d.hex(), crc(bytes(d))))
            yield Case('byte %d of %d' % (pos, n), '\n'.join(src), '\n'.join(exp), 256 * 4)
    # all strings of one and two bytes from a set
    S = list(range(0, 256, 1 if th else 5)) + [255]
    for a in S:
        src, exp = [], []
        for v in S:
            d = bytes([a, v]); src.append('B("%s");' % d.hex()); exp.append('%s %s %s %d' % (b64(d, '\n'), d.hex(), d.hex(), crc(d)))
        yield Case('pairs %d' % a, '\n'.join(src), '\n'.join(exp), len(S) * 4)
    # hash of a file, and proof of work
    for t in TYPES:
        for d, f in ((b'', b'file contents'), (b'pre', b'x' * 1500), (b'p', bytes(range(1, 256)) * 9)):
            yield Case('file %s %d' % (t, len(f)), 'var f=new Channel("h.tmp","w"); f.write(U("%s")); f.close(); puts(Util.hash(U("%s"),{type:"%s",file:"h.tmp"})); File.remove("h.tmp");' % (f.hex(), d.hex(), t),
                       H(d + f, t).hex(), 1)
        for bits in (1, 3, 7, 8, 9, 10):
            for s in (b'', b'abc'):
                n = 0
                while int.from_bytes(H(s + b':%08x' % n, t)[:8], 'big') >> (64 - bits): n += 1
                yield Case('cash %s %d %r' % (t, bits, s), 'puts(Util.hash("%s",{type:"%s",hashcash:%d}));' % (s.decode(), t, bits), H(s + b':%08x' % n, t).hex(), 1)
    # encryption
    keys = [b'k', b'', b'0123456789abcdef', b'0123456789abcdef0123456789abcde', b'0123456789abcdef0123456789abcdef', b'0123456789abcdef0123456789abcdef0', bytes(range(32)), 'é'.encode(), b'x' * 200]
    for n in (list(range(2, 70)) + [127, 128, 129, 207, 208, 209, 210, 255, 256, 257, 1000, 4096, 4099] + (list(range(70, 700)) + [8192, 16384] if th else [])):
        for j, k in enumerate(keys if n < 70 else keys[:5:2]):
            for d in (pats[0](n), bytes(n)):
                if k == b'': continue
                x = enc(d, k)
                yield Case('encrypt %d key %d' % (n, j), 'E("%s","%s");' % (d.hex(), k.hex()), '%s %s %s' % (x.hex(), d.hex(), d.hex()), 2)
    # URIs
    al = "a%+é&- /日" if not th else "aZ9%+é&-_ /日?#"
    for n in range(1, 5):
        T = [''.join(t) for t in itertools.product(al, repeat=n)]
        for i in range(0, len(T), 50):
            ch = T[i:i + 50]
            yield Case('uri %r..' % ch[0], '\n'.join('R(%s);' % jl(s) for s in ch), '\n'.join(uri(s) for s in ch), 4 * len(ch))
    ch = [chr(c) for c in range(32, 127)] + ['a%sb' % chr(c) for c in range(160, 700)]
    yield Case('uri each', '\n'.join('R(%s);' % jl(s) for s in ch), '\n'.join(uri(s) for s in ch), 4 * len(ch))
    for s in ['%41', '%41%42', 'a%20b', '%2B%2b', '%E9%9f%a5', 'x%C3%A9y', '+', '%25', '%2525', '%7e+%7E'] + ['%%%02x' % c for c in range(33, 127)] + ['%%%02X-' % c for c in range(33, 127)]:
        yield Case('decode ' + s, 'puts("["+decodeURIComponent("%s")+"|"+decodeURI("%s")+"]");' % (s, s), '[%s|%s]' % (undo(s, True), undo(s, False)), 2)
    # decoders and malformed input
    for n in (1, 2, 3, 4, 54, 55, 100):
        d = pats[0](n); t = base64.b64encode(d).decode()
        for k in (1, 2, 3, 4, 5, 7, 76):
            for sep in ('\n', '\r\n', ' ', '-', '\n\n'):
                z = sep.join(t[i:i + k] for i in range(0, len(t), k))
                yield Case('lines %d %d %r' % (n, k, sep), 'puts(Hx(Util.base64(%s,true)));' % jl(z), d.hex(), 1)
        yield Case('unpadded %d' % n, 'puts(Hx(Util.base64(%s,true)));' % jl(t.rstrip('=')), d.hex(), 1)
        yield Case('stop %d' % n, 'puts(Hx(Util.base64(%s,true)));' % jl(t + '=QUJD') if not t.endswith('=') else 'puts(Hx(Util.base64(%s,true)));' % jl(t + 'QUJD'), d.hex(), 1)
    for t in [''.join(x) for n in (1, 2, 3) for x in itertools.product('0fFgz ', repeat=n)]:
        ok = len(t) % 2 == 0 and all(c in '0fF' for c in t)
        yield Case('hex %r' % t, 'Z(function() { return Hx(Util.hexStr(%s,true)); });' % jl(t), 'ok ' + t.lower() if ok else 'error', 1)
    for n in range(0, 20):
        bad = n % 4 != 1 or n < 2
        s = 'Z(function() { return Util.decrypt(%s,"k").length>=0; });' % jl('\x01' * n)
        yield Case('cipher length %d' % n, s, 'error' if bad else 'ok true', 1)
    yield Case('empty', 'puts("["+Util.base64("")+Util.base64("",true)+"]",Util.crc32("")); Z(function() { return Util.encrypt("a","k"); });', '[] 0\nerror', 3)


def main():
    c = Ctx('A08')
    c.assumptions += ["Python's hashlib, zlib and base64"]
    n = c.run_cases(gen(c.thorough), 60, PROLOG)
    c.cov['states'] = n
    c.finish()


if __name__ == '__main__':
    main()
