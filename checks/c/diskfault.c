/* LD_PRELOAD: counts the calls that change files whose name has $DF_FILE in it (write, pwrite, ftruncate, fsync, fdatasync,
   unlink, rename, creating open) and, at call $DF_AT, either ends the process ($DF_MODE: 0 before the call, 1 after half of a
   write, 2 before the call and with every write since the file's last sync undone, 3 the same but the older half of them kept, 4 undone in
   -journal and -wal files only, 5 undone in the others only) or makes the call fail with $DF_ERRNO ($DF_MODE 9: and every later one).  $DF_COUNT names a file that gets the number of calls. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>

static int at = -1, mode, err, n, on;
static const char *pat, *cntf;
typedef struct { char path[256]; off_t off, osize; size_t len; char *old; size_t olen; } Rec;
static Rec recs[20000];
static int nrec;

static ssize_t (*r_write)(int, const void *, size_t);
static ssize_t (*r_pwrite)(int, const void *, size_t, off_t);
static int (*r_ftruncate)(int, off_t), (*r_fsync)(int), (*r_fdatasync)(int), (*r_unlink)(const char *), (*r_open)(const char *, int, ...);

static void done(void) {
    if (!cntf) return;
    int fd = r_open(cntf, O_WRONLY | O_CREAT | O_TRUNC, 0666);
    char b[32];
    int l = snprintf(b, sizeof b, "%d\n", n);
    if (fd >= 0) { r_write(fd, b, l); close(fd); }
}
static void setup(void) {
    if (r_write) return;
    r_open = dlsym(RTLD_NEXT, "open"); r_pwrite = dlsym(RTLD_NEXT, "pwrite64"); r_ftruncate = dlsym(RTLD_NEXT, "ftruncate64");
    r_fsync = dlsym(RTLD_NEXT, "fsync"); r_fdatasync = dlsym(RTLD_NEXT, "fdatasync"); r_unlink = dlsym(RTLD_NEXT, "unlink");
    r_write = dlsym(RTLD_NEXT, "write");
    pat = getenv("DF_FILE");
    if (!pat) return;
    on = 1;
    char *s;
    if ((s = getenv("DF_AT"))) at = atoi(s);
    if ((s = getenv("DF_MODE"))) mode = atoi(s);
    if ((s = getenv("DF_ERRNO"))) err = atoi(s);
    if ((cntf = getenv("DF_COUNT"))) atexit(done);
}
__attribute__((constructor)) static void init(void) { setup(); }

static int mine(int fd, char *path) {
    char l[64];
    setup();
    if (!on) return 0;
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    ssize_t k = readlink(l, path, 255);
    if (k <= 0) return 0;
    path[k] = 0;
    return strstr(path, pat) != 0;
}
static int side(const char *p) {
    size_t l = strlen(p);
    return (l > 8 && !strcmp(p + l - 8, "-journal")) || (l > 4 && !strcmp(p + l - 4, "-wal"));
}
static void undo(int keep, int which) {
    for (int i = nrec - 1; i >= keep; i--) {
        Rec *r = recs + i;
        if (which >= 0 && side(r->path) != which) continue;
        int fd = r_open(r->path, O_RDWR);
        if (fd < 0) continue;
        if (r->olen) r_pwrite(fd, r->old, r->olen, r->off);
        r_ftruncate(fd, r->osize);
        close(fd);
    }
}
/* 1: the call must fail now */
static int hit(int fd, const void *b, size_t len, off_t off) {
    ++n;
    if (err && mode == 9 && at > 0 && n >= at) { errno = err; return 1; }
    if (n != at) return 0;
    if (err) { errno = err; return 1; }
    if (mode == 1 && b) { if (off < 0) r_write(fd, b, len / 2); else r_pwrite(fd, b, len / 2, off); }
    if (mode == 2) undo(0, -1);
    if (mode == 3) undo(nrec / 2, -1);
    if (mode == 4) undo(0, 1);
    if (mode == 5) undo(0, 0);
    _exit(99);
}
static void note(const char *path, int fd, off_t off, size_t len) {
    struct stat st;
    if (mode < 2 || mode > 5 || nrec >= 20000) return;
    Rec *r = recs + nrec++;
    strcpy(r->path, path);
    fstat(fd, &st);
    r->osize = st.st_size; r->off = off; r->len = len; r->old = 0; r->olen = 0;
    if (off < st.st_size) {
        r->olen = len < (size_t)(st.st_size - off) ? len : (size_t)(st.st_size - off);
        r->old = malloc(r->olen);
        int f2 = r_open(path, O_RDONLY);
        if (f2 < 0 || pread(f2, r->old, r->olen, off) != (ssize_t)r->olen) r->olen = 0;
        if (f2 >= 0) close(f2);
    }
}
static void synced(const char *path) {
    int j = 0;
    for (int i = 0; i < nrec; i++)
        if (strcmp(recs[i].path, path)) recs[j++] = recs[i]; else free(recs[i].old);
    nrec = j;
}
ssize_t write(int fd, const void *b, size_t len) {
    char p[256];
    if (mine(fd, p)) { if (hit(fd, b, len, -1)) return -1; note(p, fd, lseek(fd, 0, SEEK_CUR), len); }
    return r_write(fd, b, len);
}
ssize_t pwrite64(int fd, const void *b, size_t len, off_t off) {
    char p[256];
    if (mine(fd, p)) { if (hit(fd, b, len, off)) return -1; note(p, fd, off, len); }
    return r_pwrite(fd, b, len, off);
}
ssize_t pwrite(int fd, const void *b, size_t len, off_t off) { return pwrite64(fd, b, len, off); }
int ftruncate64(int fd, off_t l) {
    char p[256];
    struct stat st;
    if (mine(fd, p)) { if (hit(fd, 0, 0, 0)) return -1; fstat(fd, &st); if (l < st.st_size) note(p, fd, l, st.st_size - l); }
    return r_ftruncate(fd, l);
}
int ftruncate(int fd, off_t l) { return ftruncate64(fd, l); }
int fsync(int fd) {
    char p[256];
    if (mine(fd, p)) { if (hit(fd, 0, 0, 0)) return -1; synced(p); }
    return r_fsync(fd);
}
int fdatasync(int fd) {
    char p[256];
    if (mine(fd, p)) { if (hit(fd, 0, 0, 0)) return -1; synced(p); }
    return r_fdatasync(fd);
}
int unlink(const char *path) {
    setup();
    if (on && strstr(path, pat)) { if (hit(-1, 0, 0, 0)) return -1; synced(path); }
    return r_unlink(path);
}
