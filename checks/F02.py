"""The file commands: every history of File operations up to a depth on a small tree (files, directories, hard and symbolic
links, a dangling link, unreadable and unwritable entries), compared with the same steps taken with the system's own calls in a
directory beside it: what each operation returns, and the tree that is left."""
import itertools, json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor, FIRST_COMPLETED, wait
from mc.core import Ctx, Case, NCPU, NOBODY, VERIF

PROLOG = r'''
function D(v:string) { return v.length+':'+Util.crc32(v); }
function one(k:string, a:array, top:string) { var s;
  switch (k) {
    case 'write': return ''+File.write(a[0], a[1], a[2]);
    case 'read': return D(File.read(a[0]));
    case 'copy': File.copy(a[0], a[1], a[2]); return 'undefined';
    case 'rename': File.rename(a[0], a[1], a[2]); return 'undefined';
    case 'link': File.link(a[0], a[1], a[2]); return 'undefined';
    case 'remove': File.remove(a[0], a[1]); return 'undefined';
    case 'mkdir': File.mkdir(a[0], a[1]); return 'undefined';
    case 'chmod': File.chmod(a[0], a[1]); return 'undefined';
    case 'truncate': File.truncate(a[0], a[1]); return 'undefined';
    case 'stat': s=File.stat(a[0]); break;
    case 'lstat': s=File.lstat(a[0]); break;
    case 'mtime': s=File.mtime(a[0]); return s==0||Math.abs(s-NOW)<900 ? 'ok' : 'off';
    case 'chdir': File.chdir(a[0]); return 'undefined';
    case 'pwd': return File.pwd().substr(top.length);
    case 'tempfile': s=File.tempfile(a[0]); File.rename(s, a[0].substr(0, a[0].length-6)+'TEMPNM'); return s.length==a[0].length ? 'made' : 'odd';
    default: return ''+File[k](a[0]);
  }
  var d=s.perms[0]=='d';
  return s.perms+' '+s.mode+' '+s.uid+' '+s.gid+' '+(d?0:s.nlink)+' '+(d?'':s.size);
}
var NOW=Math.floor(strptime()/1000), TOP=File.pwd();
function H(n, ops:array) { var r, out=[], top=TOP+'/A/c'+n; File.chdir(top);
  for (var i=0; i<ops.length; i++) { try { r=one(ops[i][0], ops[i].slice(1), top); } catch(e) { r='!'; } out.push(r); }
  puts('@'+n+' '+out.join('|')); }
'''

F, T = False, True
NAMES = ['f', 'b', 'd', 'd/g', 'd/s', 'v', 'e', 'l', 'x', 'k', 'k/g', 'n', 'o', 'o/q', 'u', 'hl', 'e/z', 'd/up', './f', 'd/../f', 'f/x', 'v/', 'o/new', 'd/s/h', 'd/out', 'd/out/keep', 'w']
PAIR = ['f', 'b', 'd', 'd/g', 'v', 'e', 'l', 'x', 'k', 'n', 'o/q', 'hl', 'e/z', 'd/s', 'v/t', 'k/t']
QUERY = ['exists', 'isdir', 'isfile', 'readable', 'writable', 'executable', 'owned', 'perms', 'size', 'stat', 'lstat', 'readlink', 'mtime', 'read']


def alphabet():
    ops = []
    for p in NAMES:
        for q in QUERY: ops.append((q, p))
        for fc in (F, T):
            ops.append(('remove', p, fc))
            ops.append(('mkdir', p, fc))
        for m in ('wb+', 'a', 'rb+'): ops.append(('write', p, 'WW', m))
        ops.append(('write', p, '', 'w'))
        for m in (0, 0o600, 0o4755, 0o1777): ops.append(('chmod', p, m))
        for n in (0, 3, 10000): ops.append(('truncate', p, n))
        ops.append(('chdir', p))
    ops += [('mkdir', 'a1/a2/a3', T), ('mkdir', 'a1/a2', F), ('mkdir', 'f/a2', T), ('mkdir', 'd/s/t/w', T), ('mkdir', 'x', T), ('mkdir', 'k/y/z', T), ('pwd',)]
    for t in ('tXXXXXX', 'd/tXXXXXX', 'e/tXXXXXX', 'o/tXXXXXX', 'tXXXXX'): ops.append(('tempfile', t))
    for a in PAIR:
        for b in PAIR:
            for fc in (F, T):
                for k in ('copy', 'rename', 'link'):
                    ops.append((k, a, b, fc))
    return ops


MUT = [('write', 'f', 'WW', 'wb+'), ('write', 'x', 'W', 'wb+'), ('write', 'e', 'E', 'wb+'), ('write', 'k/t', 'K', 'wb+'), ('remove', 'f', F), ('remove', 'l', F), ('remove', 'd', F), ('remove', 'd', T),
       ('remove', 'x', F), ('remove', 'k', T), ('remove', 'u', T), ('remove', 'o', T), ('remove', 'hl', F), ('mkdir', 'e', F), ('mkdir', 'a/b/c', T), ('chmod', 'f', 0), ('chmod', 'n', 0o644),
       ('chmod', 'd', 0o500), ('chmod', 'o', 0o755), ('chmod', 'd', 0), ('truncate', 'f', 2), ('truncate', 'l', 8), ('copy', 'f', 'e', F), ('copy', 'l', 'e', F), ('copy', 'b', 'f', T), ('copy', 'f', 'x', F),
       ('copy', 'f', 'hl', T), ('copy', 'n', 'e', F), ('copy', 'd/g', 'v/t', F), ('rename', 'f', 'e', F), ('rename', 'd', 'e', F), ('rename', 'f', 'b', T), ('rename', 'd', 'v', T), ('rename', 'v', 'd', T),
       ('rename', 'l', 'e', F), ('rename', 'd', 'd/s/t', F), ('rename', 'f', 'hl', T), ('rename', 'v', 'd/v', F), ('link', 'f', 'e', F), ('link', 'f', 'e', T), ('link', 'e', 'm', F), ('link', 'd', 'e', F),
       ('link', 'd/g', 'v/t', T), ('link', '.', 'v/loop', F), ('chdir', 'd'), ('chdir', 'k'), ('chdir', 'd/s'), ('pwd',), ('stat', 'e'), ('stat', 'f'), ('lstat', 'l'), ('size', 'l'), ('read', 'e'), ('exists', 'e'), ('readlink', 'e')]
CORE = [MUT[i] for i in (0, 1, 4, 5, 7, 8, 11, 13, 15, 18, 19, 22, 24, 29, 30, 31, 32, 38, 39, 44, 46)]


def cases(deep):
    al = alphabet()
    for o in al: yield (o,)
    for a in MUT:
        for b in MUT: yield (a, b)
    if deep:
        for a in MUT:
            for b in al: yield (a, b)
    for h in itertools.product(MUT if deep else CORE, repeat=3): yield h
    if deep:
        for h in itertools.product(CORE, repeat=4): yield h


def js(v): return json.dumps(v)


def run(c, group, oracle):
    base = c.shm() if hasattr(c, 'shm') else c.workdir('m')
    d = os.path.join(base, 'w%d' % next(c.wcount))
    os.mkdir(d)
    for s in ('', '/A', '/B'):
        if s: os.mkdir(d + s)
        if c.drop: os.chown(d + s, NOBODY, NOBODY)
    orc = d + '/oracle.py'
    shutil.copy(oracle, orc)
    os.chmod(orc, 0o755)
    try:
        for phase in ('build', 'judge'):
            sp = d + '/' + phase
            json.dump({'base': d, 'phase': phase, 'cases': group}, open(sp, 'w'))
            os.chmod(sp, 0o644)
        rc, out, err = c.exec([sys.executable, orc, d + '/build'], d, 300)
        if rc != 0: return None, 'building the trees failed: %s' % err.decode()[-300:]
        text = PROLOG + '\n'.join('H(%d,%s);' % (i, js(h)) for i, h in enumerate(group)) + '\n'
        rc, out, err = c.js(text, cwd=d, timeout=300)
        rc2, o2, e2 = c.exec([sys.executable, orc, d + '/judge'], d, 300)
        if rc2 != 0: return None, 'the oracle failed: %s' % e2.decode()[-300:]
        exp = json.load(open(d + '/result'))
        got = {}
        for ln in out.decode('latin1').split('\n'):
            if ln.startswith('@'):
                k, r = ln[1:].split(' ', 1)
                got[int(k)] = r
        res = []
        for i, (toks, diff) in enumerate(exp):
            g = got.get(i)
            e = '|'.join(toks)
            if g is None: res.append('no result (exit %s)' % rc)
            elif g != e: res.append('expected %s got %s' % (e[:300], g[:300]))
            elif diff: res.append('the tree differs: %s' % '; '.join(diff[:4]))
            else: res.append(None)
            c.outcomes.add(hash(g))
        return res, None
    finally:
        subprocess.run(['chmod', '-R', 'u+rwx', d], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        shutil.rmtree(d, ignore_errors=True)


def main():
    c = Ctx('F02')
    c.build('std')
    oracle = os.path.join(VERIF, 'checks', 'f02_oracle.py')
    top = c.shm()

    def job(group):
        if c.stop: return
        res, why = run(c, group, oracle)
        if res is None:
            res, why = run(c, group, oracle)
            if res is None:
                print(why)
                os._exit(2)
        for h, r in zip(group, res):
            with c.lock:
                c.cov['traces_validated_against_impl'] += 1
                c.cov['transitions'] += len(h)
            if r and not c.stop:
                again, _ = run(c, [h], oracle)
                key = ' '.join('%s(%s)' % (o[0], ', '.join(js(x) for x in o[1:])) for o in h)
                if again and again[0]:
                    c.report(Case(key, '', ''), r, again[0], PROLOG.replace("'/A/c'+n", "''") + '// in a directory with the tree of checks/f02_oracle.py build()\nH(0,%s);\n' % js(h))
                else: c.flaky += 1
    c.shm = lambda: top
    it = cases(c.thorough)
    with ThreadPoolExecutor(NCPU) as ex:
        pend = set()
        while not c.stop:
            g = list(itertools.islice(it, 300))
            if not g: break
            pend.add(ex.submit(job, g))
            if len(pend) >= NCPU * 2:
                done, pend = wait(pend, return_when=FIRST_COMPLETED)
                for f in done: f.result()
        for f in pend: f.result()
    c.cov['bounds'] = 'every one of %d operations, pairs of %d, triples of %d%s' % (len(alphabet()), len(MUT), len(CORE), '; thorough: triples of all pairs\' operations, histories of 4' if c.thorough else '')
    c.assumptions += ['Linux, one unprivileged user; times are compared only with the clock']
    c.finish()


if __name__ == '__main__':
    main()
