"""Runs the cases of F02 with the system's own calls, in a directory next to the one jsish worked in, and compares what each
operation returned and the two trees that are left.  Runs as the same unprivileged user, alone (no other module of /verif)."""
import os, sys, stat, zlib, json, shutil


def D(b): return '%d:%d' % (len(b), zlib.crc32(b) & 0xffffffff)


def build(root):
    os.mkdir(root)
    os.chdir(root)

    def w(p, s):
        with open(p, 'w') as fp: fp.write(s)
    w('f', 'hello')
    w('b', 'B' * 9000)
    os.mkdir('d')
    w('d/g', 'G')
    os.mkdir('d/s')
    w('d/s/h', 'H')
    os.mkdir('w')
    w('w/keep', 'K')
    os.symlink('../w', 'd/out')
    os.mkdir('v')                       # empty
    os.symlink('f', 'l')
    os.symlink('nowhere', 'x')
    os.symlink('d', 'k')
    os.symlink('../f', 'd/up')
    w('n', 'secret')
    os.chmod('n', 0)
    os.mkdir('o')
    w('o/q', 'Q')
    os.chmod('o', 0o555)
    os.mkdir('u')
    os.mkdir('u/i')
    os.chmod('u/i', 0)
    os.link('f', 'hl')
    os.chmod('f', 0o640)


def perms(mode): return stat.filemode(mode)


def snap(root):
    res, inodes = [], {}

    def walk(p, rel):
        st = os.lstat(p)
        if stat.S_ISDIR(st.st_mode):
            ok = os.access(p, os.R_OK | os.X_OK)
            res.append('%s %s' % (rel, perms(st.st_mode)))
            if not ok:
                try: os.chmod(p, 0o700)
                except OSError: pass
            for n in sorted(os.listdir(p)): walk(p + '/' + n, rel + '/' + n)
        elif stat.S_ISLNK(st.st_mode): res.append('%s -> %s' % (rel, os.readlink(p)))
        else:
            inodes.setdefault(st.st_ino, []).append(rel)
            if not os.access(p, os.R_OK):
                os.chmod(p, 0o600)
            with open(p, 'rb') as fp: res.append('%s %s %s' % (rel, perms(st.st_mode), D(fp.read())))
    walk(root, '.')
    for v in inodes.values():
        if len(v) > 1: res.append('same ' + ' '.join(v))
    return res


def there(p):
    """File.exists: the name and what it leads to."""
    return os.path.exists(p)


def rmtree(p):
    """Everything that can go goes; False when something stays."""
    ok = True
    try: names = os.listdir(p)
    except OSError:
        names = None
    for n in names or ():
        q = p + '/' + n
        if os.path.isdir(q) and not os.path.islink(q): ok = rmtree(q) and ok
        else:
            try: os.unlink(q)
            except OSError: ok = False
    try: os.rmdir(p)
    except OSError: return False
    return ok


def op(o):
    k, a = o[0], o[1:]
    if k == 'write':
        with open(a[0], {'rb+': 'r+b', 'wb+': 'w+b'}.get(a[2], a[2] + 'b')) as fp: fp.write(a[1].encode())
        return str(len(a[1]))
    if k == 'read':
        with open(a[0], 'rb') as fp: return D(fp.read())
    if k == 'copy':
        s, d, force = a
        if not force and os.path.exists(d): raise OSError
        with open(s, 'rb') as fp: data = fp.read()
        mode = os.stat(s).st_mode
        same = force and os.path.exists(d)
        if same:
            try: os.rmdir(d) if os.path.isdir(d) and not os.path.islink(d) else os.unlink(d)
            except OSError:
                if os.path.samefile(s, d): raise
        try: os.stat(s)
        except OSError: mode = None         # the source was the target's other name
        with open(d, 'wb') as fp: fp.write(data)
        if mode is None: mode = os.stat(s).st_mode
        os.chmod(d, stat.S_IMODE(mode))
        return 'undefined'
    if k == 'rename':
        s, d, force = a
        if not force and os.path.exists(d): raise OSError
        os.rename(s, d)
        return 'undefined'
    if k == 'link':
        s, d, hard = a
        if hard: os.link(s, d, follow_symlinks=False)
        else: os.symlink(s, d)
        return 'undefined'
    if k == 'remove':
        p, force = a
        try: st = os.lstat(p)
        except OSError:
            if force: return 'undefined'
            raise
        if not stat.S_ISDIR(st.st_mode): os.unlink(p)
        else:
            try: os.rmdir(p)
            except OSError:
                if not force or not rmtree(p): raise OSError
        return 'undefined'
    if k == 'mkdir':
        p, force = a
        if force:
            if os.path.isdir(p): return 'undefined'
            os.makedirs(p, 0o755)
        else: os.mkdir(p, 0o755)
        return 'undefined'
    if k == 'chmod':
        os.chmod(a[0], a[1])
        return 'undefined'
    if k == 'truncate':
        fd = os.open(a[0], os.O_RDWR)
        try: os.ftruncate(fd, a[1])
        finally: os.close(fd)
        return 'undefined'
    if k == 'readlink': return os.readlink(a[0])
    if k == 'exists': return 'true' if there(a[0]) else 'false'
    if k == 'isdir': return 'true' if os.path.isdir(a[0]) else 'false'
    if k == 'isfile': return 'true' if os.path.isfile(a[0]) else 'false'
    if k == 'readable': return 'true' if os.access(a[0], os.R_OK) else 'false'
    if k == 'writable': return 'true' if os.access(a[0], os.W_OK) else 'false'
    if k == 'executable': return 'true' if os.access(a[0], os.X_OK) else 'false'
    if k == 'owned': return 'true' if there(a[0]) and os.stat(a[0]).st_uid == os.geteuid() else 'false'
    if k == 'perms': return perms(os.stat(a[0]).st_mode) if there(a[0]) else '----------'
    if k == 'size': return str(os.stat(a[0]).st_size)
    if k in ('stat', 'lstat'):
        st = os.stat(a[0]) if k == 'stat' else os.lstat(a[0])
        d = stat.S_ISDIR(st.st_mode)
        return '%s %d %d %d %d %s' % (perms(st.st_mode), st.st_mode, st.st_uid, st.st_gid, 0 if d else st.st_nlink, '' if d else st.st_size)
    if k == 'mtime': return 'ok' if not there(a[0]) or abs(os.stat(a[0]).st_mtime - op.now) < 900 else 'off'
    if k == 'chdir':
        os.chdir(a[0])
        return 'undefined'
    if k == 'pwd': return os.getcwd()[len(op.top):]
    if k == 'tempfile':
        d = os.path.dirname(a[0])
        if not a[0].endswith('XXXXXX') or not os.path.isdir(d or '.') or not os.access(d or '.', os.W_OK): raise OSError
        with open(a[0][:-6] + 'TEMPNM', 'x'): pass
        os.chmod(a[0][:-6] + 'TEMPNM', 0o600)
        return 'made'
    raise AssertionError(k)


def main(spec):
    import time
    op.now = time.time()
    spec = json.load(open(spec))
    base = spec['base']
    if spec['phase'] == 'build':
        for i in range(len(spec['cases'])): build(base + '/A/c%d' % i)
        return
    res = []
    for i, case in enumerate(spec['cases']):
        root = base + '/B/c%d' % i
        build(root)
        op.top = root
        toks = []
        for o in case:
            try: toks.append(op(o))
            except OSError: toks.append('!')
        os.chdir(base)
        a, b = snap(base + '/A/c%d' % i), snap(root)
        diff = ['%s in jsish' % x for x in a if x not in b] + ['%s expected' % x for x in b if x not in a]
        res.append((toks, diff))
    json.dump(res, open(base + '/result', 'w'))


if __name__ == '__main__':
    os.umask(0o022)
    main(sys.argv[1])
