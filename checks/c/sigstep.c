/* A signal at every instruction boundary of a pass over the events: sigstep FIRST STRIDE SCENARIO
   The child has got A and runs a pass; the parent traces it and delivers B before every single instruction of the pass.  Both callbacks must have run the number of times the signals were sent. */
#include <jsi.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>
#include <sys/ptrace.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <sys/user.h>
#include <sys/mman.h>

static const char *setup[] = {
    /* B while the pass takes A */
    "var a=0, b=0; Signal.callback(function() { a++; }, 'USR1'); Signal.callback(function() { b++; }, 'USR2');",
    /* B has no callback yet when it comes; it is only handled */
    "var a=0, b=0; Signal.callback(function() { a++; }, 'USR1'); Signal.handle('USR2');",
    /* A's callback changes the handling of other signals */
    "var a=0, b=0; Signal.callback(function() { a++; Signal.ignore('TERM'); Signal.reset('TERM'); Signal.handle('HUP'); }, 'USR1'); Signal.callback(function() { b++; }, 'USR2');",
};
static const char *after[] = { "0;", "Signal.callback(function() { b++; }, 'USR2');", "0;" };

static int num(Jsi_Interp *I, const char *nm) {
    Jsi_Value *v = Jsi_NameLookup(I, nm); Jsi_Number n = -1;
    if (!v) return -1;
    Jsi_GetNumberFromValue(I, v, &n);
    return (int)n;
}


static void child(Jsi_Interp *I, int sc) {
    raise(SIGUSR1);
    ptrace(PTRACE_TRACEME, 0, 0, 0);
    raise(SIGSTOP);                 /* the window opens */
    Jsi_EventProcess(I, -1);
    raise(SIGSTOP);                 /* ... and closes */
    Jsi_EvalString(I, after[sc], 0);
    Jsi_EventProcess(I, -1);
    Jsi_EventProcess(I, -1);
    int a = num(I, "a"), b = num(I, "b");
    _exit(a == 1 && b == 1 ? 0 : 100 + 10*(a < 0 ? 9 : a % 10) + (b < 0 ? 9 : b % 10));
}

static pid_t start(Jsi_Interp *I, int sc) {
    int st; pid_t p = fork();
    if (!p) child(I, sc);
    if (waitpid(p, &st, 0) != p || !WIFSTOPPED(st) || WSTOPSIG(st) != SIGSTOP) { printf("FAIL setup | child did not stop (%x)\n", st); exit(1); }
    return p;
}

/* not from the heap: the children must all start from the same one */
static long *pages(long n) { return mmap(0, n*sizeof(long), PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0); }
static long pc(pid_t p) { struct user_regs_struct r; ptrace(PTRACE_GETREGS, p, 0, &r); return (long)r.rip; }

int main(int argc, char **argv) {
    long first = atol(argv[1]), stride = atol(argv[2]); int sc = atoi(argv[3]);
    long k, i, n = 0, cap = 1 << 22, *trace = pages(cap), *occ = pages(cap), runs = 0, stops = 0; int st;
    if (personality(0xffffffff) >= 0 && !(personality(0xffffffff) & ADDR_NO_RANDOMIZE)) {
        personality(ADDR_NO_RANDOMIZE);
        execv("/proc/self/exe", argv);
    }
    Jsi_Interp *I = Jsi_InterpNew(NULL);
    if (Jsi_EvalString(I, setup[sc], 0) != JSI_OK) { printf("FAIL setup | script\n"); return 1; }
    /* the instructions of the window, once */
    pid_t p = start(I, sc);
    while (1) {
        long a = pc(p);
        if (n >= cap) { printf("FAIL trace | too long\n"); return 1; }
        trace[n++] = a;
        ptrace(PTRACE_SINGLESTEP, p, 0, 0);
        if (waitpid(p, &st, 0) != p || !WIFSTOPPED(st)) { printf("FAIL trace | child ended (%x)\n", st); return 1; }
        if (WSTOPSIG(st) == SIGSTOP) break;
    }
    kill(p, SIGKILL); waitpid(p, &st, 0);
    {   /* which occurrence of its address each is */
        long mod = 1; while (mod < 2*n) mod <<= 1;
        long *key = pages(mod), *cnt = pages(mod);
        for (i = 0; i < n; i++) {
            unsigned long h = ((unsigned long)trace[i]*2654435761UL >> 7) & (mod-1);
            while (key[h] && key[h] != trace[i]) h = (h+1) & (mod-1);
            key[h] = trace[i]; occ[i] = cnt[h]++;
        }
    }
    for (k = first; k < n; k += stride) {
        p = start(I, sc);
        long a = trace[k], w = ptrace(PTRACE_PEEKTEXT, p, a, 0), j, ok = 1;
        if (ptrace(PTRACE_POKETEXT, p, a, w)) {     /* the kernel's page: no breakpoint possible there */
            for (j = 0; j < k && ok; j++) { ptrace(PTRACE_SINGLESTEP, p, 0, 0); waitpid(p, &st, 0); ok = WIFSTOPPED(st); stops++; }
            goto here;
        }
        for (j = 0; ok; j++) {
            if (j || pc(p) != a) {
                if (j) { ptrace(PTRACE_SINGLESTEP, p, 0, 0); waitpid(p, &st, 0); if (!WIFSTOPPED(st)) { ok = 0; break; } }
                if (pc(p) != a) {
                    ptrace(PTRACE_POKETEXT, p, a, (w & ~0xffL) | 0xcc);
                    ptrace(PTRACE_CONT, p, 0, 0);
                    if (waitpid(p, &st, 0) != p || !WIFSTOPPED(st) || WSTOPSIG(st) != SIGTRAP) { ok = 0; break; }
                    ptrace(PTRACE_POKETEXT, p, a, w);
                    struct user_regs_struct r; ptrace(PTRACE_GETREGS, p, 0, &r); r.rip = a; ptrace(PTRACE_SETREGS, p, 0, &r);
                }
            }
            stops++;
            if (j == occ[k]) break;
        }
        if (!ok) {      /* took another path this time: count instructions instead */
            kill(p, SIGKILL); waitpid(p, &st, 0);
            p = start(I, sc);
            for (j = 0; j < k; j++) {
                ptrace(PTRACE_SINGLESTEP, p, 0, 0); waitpid(p, &st, 0); stops++;
                if (!WIFSTOPPED(st) || WSTOPSIG(st) == SIGSTOP) break;
            }
        }
here:
        ptrace(PTRACE_CONT, p, 0, SIGUSR2);
        while (1) {
            if (waitpid(p, &st, 0) != p) return 1;
            if (!WIFSTOPPED(st)) break;
            ptrace(PTRACE_CONT, p, 0, WSTOPSIG(st) == SIGSTOP ? 0 : WSTOPSIG(st));
        }
        runs++;
        if (!WIFEXITED(st) || WEXITSTATUS(st)) {
            int c = WIFEXITED(st) ? WEXITSTATUS(st) : -1;
            printf("FAIL scenario %d, USR2 at instruction %ld of %ld of the pass that takes USR1 | USR1 callback ran %d times, USR2 callback %d times (status %x)\n", sc, k, n, c >= 100 ? (c-100)/10 : -1, c >= 100 ? (c-100)%10 : -1, st);
            printf("STAT %ld %ld\n", runs, stops);
            return 1;
        }
    }
    printf("STAT %ld %ld\n", runs, stops);
    return 0;
}
