"""Shared machinery of the checks: build /repo, run enumerated cases on the real
interpreter, compare with a reference model, replay, report, write evidence."""
import os, sys, json, time, shutil, subprocess, tempfile, threading, signal, hashlib, itertools, atexit
from concurrent.futures import ThreadPoolExecutor, FIRST_COMPLETED, wait

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('JSI_REPO', '/repo')
NOBODY = 65534
NCPU = max(2, min(8, os.cpu_count() or 8))

KINDS = {
    # exactly the project's own optimisation level (its Makefile ends in -g -Og -O0)
    'std': '',
    'asan': '-O1 -fsanitize=address -fno-omit-frame-pointer',
    'tsan': '-O1 -fsanitize=thread -fno-omit-frame-pointer',
}


class Case:
    """One enumerated behaviour: JS source, and the output the model predicts."""
    __slots__ = ('key', 'src', 'exp', 'n', 'alt')

    def __init__(self, key, src, exp, n=1, alt=None):
        self.key = key      # canonical description of the history / input
        self.src = src      # body of a function (JS text)
        self.exp = exp      # expected output (text), or a callable got -> None|message
        self.n = n          # number of model transitions it replays
        self.alt = alt


def sandbox_user():
    """Become an unprivileged user in the child: whatever the code under test does to
    files reaches only the scratch directory."""
    os.setgroups([])
    os.setgid(NOBODY)
    os.setuid(NOBODY)


def limit_memory():
    """A runaway allocation of the code under test ends in its own process (not with the
    sanitizers, which reserve address space)."""
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))


def _can_drop():
    if os.getuid() != 0:
        return False
    try:
        p = subprocess.run(['/bin/true'], preexec_fn=sandbox_user)
        return p.returncode == 0
    except Exception:
        return False


class Stop(Exception):
    pass


class Ctx:
    def __init__(self, pid, level='model_checking'):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix='vmc-%s-' % pid, dir='/tmp')
        os.chmod(self.scratch, 0o755)
        atexit.register(self.cleanup)
        self.drop = _can_drop()
        self.tmp = []
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0,
                    'samples': [], 'exhaustive': True}
        self.outcomes = set()
        self.assumptions = []
        self.violations = []
        self.known_hit = {}
        self.lock = threading.Lock()
        self._san = {}
        self.builds = {}
        self.stop = False
        self.max_viol = 3
        self.flaky = 0
        self.wcount = itertools.count()
        self.known = {}
        kf = os.path.join(VERIF, 'known_findings.json')
        if os.path.exists(kf):
            for f in json.load(open(kf)).get('findings', []):
                if f['property'] == pid:
                    for k in f['keys']:
                        self.known[k] = f
        self.thorough = self.tier == 'thorough'
        # replays of earlier runs of this check
        self.rdir = os.path.join(VERIF, 'evidence', 'replays')
        os.makedirs(self.rdir, exist_ok=True)
        for f in os.listdir(self.rdir):
            if f.startswith(pid + '-'):
                try:
                    os.remove(os.path.join(self.rdir, f))
                except OSError:
                    pass

    # ---------------------------------------------------------------- build
    def build(self, kind='std', want='jsish'):
        """Build /repo's current working tree in a scratch copy.  Returns the directory."""
        if kind in self.builds:
            return self.builds[kind]
        # long on purpose: see DESIGN.md (File.glob cut names by the length of the working directory)
        d = os.path.join(self.scratch, 'build-%s-of-the-working-tree-of-repo' % kind)
        shutil.copytree(REPO, d, symlinks=True,
                        ignore=lambda p, ns: [n for n in ns if n in ('.git', '_build') and os.path.samefile(p, REPO)])
        # products that may lie in the tree
        conf = open(os.path.join(d, 'Configs/make_default.conf')).read()
        out = []
        for ln in conf.split('\n'):
            if ln.startswith('WITH_EXT_WEBSOCKET=1'):
                ln = 'WITH_EXT_WEBSOCKET=0'
            if ln.startswith('BUILDIN_') and ln.endswith('=1'):
                ln = ln[:-1] + '0'
            out.append(ln.replace('-DJSI__WEBSOCKET=1', '-DJSI__WEBSOCKET=0'))
        open(os.path.join(d, 'make.conf'), 'w').write('\n'.join(out))
        open(os.path.join(d, '.depend'), 'w').write('')
        for sub in ('src', 'miniz'):
            for n in os.listdir(os.path.join(d, sub)):
                if n.endswith(('.o', '.d')):
                    os.remove(os.path.join(d, sub, n))
        cc = 'gcc'
        if KINDS[kind]:
            cc = os.path.join(d, 'ccwrap')
            open(cc, 'w').write('#!/bin/sh\nexec gcc "$@" %s\n' % KINDS[kind])
            os.chmod(cc, 0o755)
        env = dict(os.environ, CFLAGS='-w', HOME='/tmp', LC_ALL='C.UTF-8',
                   ASAN_OPTIONS='detect_leaks=0')
        env.pop('MAKEFLAGS', None)
        mk = ['make', 'CC=' + cc, 'SQLITELIB=', 'EXTRALD=-lsqlite3']
        log = ''
        for tgt in (['src/parser.c'], ['-j%d' % NCPU, 'libjsi.so'], ['all']):
            p = subprocess.run(mk + tgt, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               stdin=subprocess.DEVNULL, timeout=600)
            log += p.stdout.decode('utf8', 'replace')
        if not os.access(os.path.join(d, want), os.X_OK):
            sys.stdout.write(log[-4000:])
            print('build of the working tree failed')
            sys.exit(2)
        self.builds[kind] = d
        return d

    def cc(self, src, out, kind='std', extra=(), lib=True, cc='gcc'):
        """Compile a harness of /verif against the scratch build's library."""
        d = self.build(kind)
        srcs = [src] if isinstance(src, str) else list(src)
        cmd = [cc, '-g', '-w', '-O1' if kind != 'std' else '-O1', '-I' + d + '/src', '-I' + d, '-DJSI__MAIN=1'] + \
            KINDS[kind].split() + srcs + list(extra)
        if lib:
            cmd += [os.path.join(d, 'libjsi.a')]
        cmd += ['-o', out, '-lm', '-ldl', '-lpthread', '-lsqlite3', '-rdynamic']
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            sys.stdout.write(p.stdout.decode('utf8', 'replace')[-4000:])
            print('compiling the harness failed')
            sys.exit(2)
        return out

    # ---------------------------------------------------------------- running
    def workdir(self, tag='w'):
        d = os.path.join(self.scratch, '%s%d' % (tag, next(self.wcount)))
        os.mkdir(d)
        if self.drop:
            os.chown(d, NOBODY, NOBODY)
        return d

    def sanitized(self, argv):
        """Does this program (or the one it wraps) use a sanitizer?"""
        k = argv[0]
        if k not in self._san:
            try:
                with open(k, 'rb') as fp:
                    b = fp.read()
                self._san[k] = b'__asan_init' in b or b'__tsan_init' in b or b[:4] != b'\x7fELF'
            except OSError:
                self._san[k] = True
        return self._san[k]

    def exec(self, argv, cwd, timeout=60, env=None, stdin=None, drop=True):
        """Run a program; returns (rc, stdout bytes, stderr bytes); rc None = timed out."""
        e = {'PATH': '/usr/bin:/bin', 'HOME': cwd, 'LC_ALL': 'C.UTF-8', 'TZ': 'UTC',
             'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0',
             'TSAN_OPTIONS': 'exitcode=98'}
        if env:
            e.update(env)
        def pre():
            if self.drop and drop:
                sandbox_user()
            if not self.sanitized(argv):
                limit_memory()
        p = subprocess.Popen(argv, cwd=cwd, env=e, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True, preexec_fn=pre)
        try:
            out, err = p.communicate(stdin, timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            out, err = p.communicate()
            rc = None
        return rc, out, err

    def js(self, text, kind='std', cwd=None, timeout=60, env=None, args=(), pre=(), name='t.jsi', binary='jsish'):
        d = self.build(kind)
        own = cwd is None
        if own:
            cwd = self.workdir('j')
        f = os.path.join(cwd, name)
        with open(f, 'wb') as fp:
            fp.write(text if isinstance(text, bytes) else text.encode('utf8', 'surrogateescape'))
        os.chmod(f, 0o644)
        r = self.exec([os.path.join(d, binary)] + list(pre) + [f] + list(args), cwd, timeout, env)
        if own:
            shutil.rmtree(cwd, ignore_errors=True)
        return r

    PROLOG = ("function __c(id, f) { puts('@@B '+id); try { f(); } catch(e) { puts('EXC '+e); } puts('@@E '+id); }\n")

    def render(self, cases, base=0, prolog=''):
        s = [self.PROLOG, prolog, '\n']
        for i, c in enumerate(cases):
            s.append('__c(%d, function() {\n%s\n});\n' % (base + i, c.src))
        s.append("puts('@@END');\n")
        return ''.join(s)

    @staticmethod
    def parse(out, n):
        """{index: text} of the cases whose end marker was seen."""
        res = {}
        cur, buf = None, []
        for ln in out.decode('utf8', 'surrogateescape').split('\n'):
            if ln.startswith('@@B '):
                try:
                    cur = int(ln[4:])
                except ValueError:
                    cur = None
                buf = []
            elif ln.startswith('@@E '):
                if cur is not None and ln[4:] == str(cur):
                    res[cur] = '\n'.join(buf)
                cur = None
            elif cur is not None:
                buf.append(ln)
        return res

    def verdict(self, case, got):
        if callable(case.exp):
            return case.exp(got)
        if got != case.exp:
            e, g = case.exp.split('\n'), got.split('\n')
            if len(e) > 1 and not got.startswith('!'):
                for i in range(max(len(e), len(g))):
                    x = e[i] if i < len(e) else '(end)'
                    y = g[i] if i < len(g) else '(end)'
                    if x != y:
                        return 'output line %d: expected %.600r got %.600r' % (i + 1, x, y)
            return 'expected %.600r got %.600r' % (case.exp, got)
        return None

    def run_batch(self, cases, prolog='', kind='std', timeout=120, env=None, strip=None):
        """Run the cases in one process (restarting after a crash).  Returns list of outputs;
        an output may be '!CRASH rc ...' or '!HANG'."""
        if kind == 'std':
            timeout = min(timeout, 75)
        res = [None] * len(cases)
        todo = list(range(len(cases)))
        first = True
        while todo and not self.stop:
            sub = [cases[i] for i in todo]
            rc, out, err = self.js(self.render(sub, 0, prolog), kind, timeout=timeout if first else min(timeout, 60), env=env)
            got = self.parse(out, len(sub))
            first = False
            rest = []
            missing = [k for k in range(len(sub)) if k not in got]
            for k, t in got.items():
                if k < len(sub):
                    res[todo[k]] = strip(t) if strip else t
            if not missing:
                if rc not in (0, None) and kind != 'std':
                    # sanitizer report after the last case
                    return res, (rc, err)
                break
            # the first missing case is the suspect: run it alone
            k = missing[0]
            one = self.run_one(sub[k], prolog, kind, env=env, strip=strip)
            res[todo[k]] = one
            if one == '!HANG' and rc is None:
                break  # judge this one: more of its kind would take minutes each
            rest = [todo[m] for m in missing[1:]]
            todo = rest
        return res, None

    def run_one(self, case, prolog='', kind='std', env=None, timeout=20, strip=None):
        rc, out, err = self.js(self.render([case], 0, prolog), kind, timeout=timeout, env=env)
        if rc is None:
            rc, out, err = self.js(self.render([case], 0, prolog), kind, timeout=90, env=env)
            if rc is None:
                return '!HANG'
        got = self.parse(out, 1)
        if 0 in got and (kind == 'std' or rc == 0):
            return strip(got[0]) if strip else got[0]
        tail = (err.decode('utf8', 'replace') + out.decode('utf8', 'replace'))
        if rc is not None and rc >= 0 and rc not in (98, 99):
            return '!ERROR rc=%s %s' % (rc, tail.strip()[:300])
        first = [l for l in tail.split('\n') if 'ERROR' in l or 'runtime error' in l][:1]
        return '!CRASH rc=%s %s' % (rc, first[0][:200] if first else '')

    def replay_cmd(self, kind):
        return 'build /repo (bash /opt/vp/build.sh), then run: /repo/_build/copy-of-*/jsish <this file>'

    def report(self, case, got, msg, text=None, ext='jsi', extra=''):
        """A confirmed violation (already replayed)."""
        with self.lock:
            f = self.known.get(case.key)
            if f is not None and (f.get('got') is None or f.get('got') == got or (isinstance(f.get('got'), dict) and f['got'].get(case.key) == got)):
                self.known_hit.setdefault(f['id'], f)
                return
            n = len(self.violations)
            if n >= self.max_viol:
                self.stop = True
                return
            path = os.path.join(self.rdir, '%s-%d.%s' % (self.pid, n + 1, ext))
            with open(path, 'wb') as fp:
                fp.write((text or '').encode('utf8', 'surrogateescape'))
            with open(path + '.txt', 'wb') as fp:
                fp.write(('property %s\ncase: %s\n%s\n%s\n%s\n' % (self.pid, case.key, msg, extra, self.replay_cmd('std'))).encode('utf8', 'surrogateescape'))
            self.violations.append((case.key, msg, path))
            print(('  case: %s' % case.key).encode('utf8', 'replace').decode()[:1500])
            print(('  %s' % msg).encode('utf8', 'replace').decode()[:1500])
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            sys.stdout.flush()
            if n + 1 >= self.max_viol:
                self.stop = True

    def judge(self, cases, res, prolog, kind, env=None, strip=None, timeout=120):
        bad = []
        for c, g in zip(cases, res):
            if g is None:
                continue
            m = self.verdict(c, g)
            with self.lock:
                self.cov['traces_validated_against_impl'] += 1
                self.cov['transitions'] += c.n
                if len(self.outcomes) < 2000000:
                    self.outcomes.add(hash(g))
            if m:
                bad.append((c, g, m))
        for c, g, m in bad:
            if self.stop:
                return
            # replay alone in a fresh process, twice
            a = self.run_one(c, prolog, kind, env=env, strip=strip)
            ma = self.verdict(c, a)
            b = a if g == a == '!HANG' else self.run_one(c, prolog, kind, env=env, strip=strip) if ma else None
            if ma and self.verdict(c, b):
                self.report(c, a, ma, self.PROLOG + prolog + '\n__c(0, function() {\n' + c.src + '\n});\n')
                continue
            # only within the history of its batch?
            i = cases.index(c)
            pre = cases[:i + 1]
            r2, _ = self.run_batch(pre, prolog, kind, timeout, env, strip)
            r3, _ = self.run_batch(pre, prolog, kind, timeout, env, strip)
            if r2[-1] is not None and self.verdict(c, r2[-1]) and r3[-1] is not None and self.verdict(c, r3[-1]):
                lo = pre
                # shorten the history by halving while it still fails
                step = len(lo) // 2
                while step >= 1 and len(lo) > 1:
                    cand = lo[step:]
                    rr, _ = self.run_batch(cand, prolog, kind, timeout, env, strip)
                    if cand and rr[-1] is not None and self.verdict(c, rr[-1]):
                        lo = cand
                        step = min(step, len(lo) // 2)
                    else:
                        step //= 2
                self.report(c, r2[-1], self.verdict(c, r2[-1]) + ' (after a history of %d cases in one process)' % (len(lo) - 1),
                            self.render(lo, 0, prolog))
            else:
                with self.lock:
                    self.flaky += 1

    def run_cases(self, cases, batch=200, prolog='', kind='std', timeout=120, env=None, strip=None, group=None, progress=True):
        """Replay every case (an iterable) on the real interpreter, NCPU batches at a time."""
        self.build(kind)
        it = iter(cases)

        def job(cs):
            if self.stop:
                return
            res, san = self.run_batch(cs, prolog, kind, timeout, env, strip)
            self.judge(cs, res, prolog, kind, env, strip, timeout)

        total = 0
        smp = []
        with ThreadPoolExecutor(NCPU) as ex:
            pend = set()
            while not self.stop:
                cs = list(itertools.islice(it, batch))
                if not cs:
                    break
                total += len(cs)
                if len(smp) < 2 or (total // batch) % 50 == 7 and len(smp) < 4:
                    smp.append(cs[min(3, len(cs) - 1)].key)
                pend.add(ex.submit(job, cs))
                if len(pend) >= 3 * NCPU:
                    done, pend = wait(pend, return_when=FIRST_COMPLETED)
                    for d in done:
                        d.result()
            for d in pend:
                d.result()
        with self.lock:
            self.cov['samples'] += [str(s)[:400] for s in smp]
        return total

    def harness(self, exe, jobs, src, timeout=600, env=None):
        """Run a C explorer once per job (argument lists), NCPU at a time.  It prints 'STAT states transitions', and
        'FAIL history | what' for a difference; a failing job is run again before it is reported."""
        def one(job):
            if self.stop:
                return
            d = self.workdir('h')
            rc, out, err = self.exec([exe] + [str(x) for x in job], d, timeout, env)
            t = out.decode('utf8', 'replace') + err.decode('utf8', 'replace')
            st = [l.split() for l in t.split('\n') if l.startswith('STAT ')]
            fl = [l for l in t.split('\n') if l.startswith('FAIL ')]
            with self.lock:
                for s in st:
                    self.cov['states'] += int(s[1]); self.cov['transitions'] += int(s[2])
                    self.cov['traces_validated_against_impl'] += int(s[2])
                    self.outcomes.add(hash((tuple(map(str, job)), s[1])))
                if len(self.cov['samples']) < 6:
                    self.cov['samples'].append(' '.join(map(str, job)))
            if rc == 0 and st and not fl:
                return
            if rc is None:
                fl = ['FAIL %s | did not finish in %d s' % (' '.join(map(str, job)), timeout)]
            rc2, out2, err2 = self.exec([exe] + [str(x) for x in job], d, timeout, env)
            t2 = out2.decode('utf8', 'replace') + err2.decode('utf8', 'replace')
            if rc2 == 0 and 'STAT ' in t2 and 'FAIL ' not in t2:
                with self.lock:
                    self.flaky += 1
                return
            what = (fl or ['FAIL %s | rc=%s %s' % (' '.join(map(str, job)), rc, t[-300:])])[0][5:]
            key, _, msg = what.partition(' | ')
            self.report(Case(key, '', ''), '', msg or what,
                        'job: %s\n%s\n\n%s' % (' '.join(map(str, job)), what, t2[-6000:]), 'txt',
                        'replay: compile %s against the library of the working tree and run it with the arguments of the job' % src)
        with ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(one, jobs))

    # ---------------------------------------------------------------- finish
    def shm(self):
        """A directory in memory (removed at the end), or a scratch one."""
        if not os.access('/dev/shm', os.W_OK):
            return self.workdir('m')
        d = '/dev/shm/%s-%d' % (os.path.basename(self.scratch), next(self.wcount))
        os.mkdir(d)
        os.chmod(d, 0o755)
        self.tmp.append(d)
        return d

    def cleanup(self):
        for d in self.tmp:
            shutil.rmtree(d, ignore_errors=True)
        if self.scratch and os.path.isdir(self.scratch) and not os.environ.get('VMC_KEEP'):
            subprocess.run(['chmod', '-R', 'u+rwx', self.scratch], stderr=subprocess.DEVNULL)
            shutil.rmtree(self.scratch, ignore_errors=True)

    def finish(self):
        self.cov['samples'] = self.cov['samples'][:12] or ['(none)']
        self.cov['distinct_outcomes'] = len(self.outcomes)
        if self.flaky:
            self.cov['unreproducible_differences_ignored'] = self.flaky
        if self.level in ('exploration', 'fault_enumeration'):
            self.cov.setdefault('evaluations', self.cov['traces_validated_against_impl'])
            self.cov.setdefault('distinct_nontrivial', self.cov['distinct_outcomes'])
        if self.violations:
            self.cov['exhaustive'] = False
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
              'coverage': self.cov, 'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations)}
        path = os.path.join(VERIF, 'evidence', self.pid + '.json')
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path + '.tmp', 'w') as fp:
            json.dump(ev, fp, indent=1)
        os.replace(path + '.tmp', path)
        for f in self.known_hit.values():
            print('KNOWN-FINDING: property=%s %s' % (self.pid, f['what']))
        c = self.cov
        print('%s %s: states=%s transitions=%s traces=%s outcomes=%s flaky=%d %.1fs' % (
            self.pid, self.tier, c.get('states'), c.get('transitions'), c.get('traces_validated_against_impl'),
            len(self.outcomes), self.flaky, time.time() - self.t0))
        self.cleanup()
        sys.stdout.flush()
        os._exit(1 if self.violations else 0)
