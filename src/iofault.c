// Records and perturbs the file system calls a process makes below one directory (x86-64, LD_PRELOAD).
//
// A seccomp filter turns the calls into SIGSYS; the handler performs them through one exempted instruction,
// so calls made inside libc (stdio) are seen as well as direct ones. Configured by the environment variable
// VF_IO and at run time by vf_io():  key=value;key=value...
//   root=PATH      calls on files below PATH are tracked
//   log=PATH       append one binary record per tracked call (see vf/iolog.py); data=1 adds the written bytes
//   fault=OPS:K:N:WHAT[:ARG]  the K-th (from 1) to (K+N-1)-th tracked call among OPS (letters, see below) fails:
//        WHAT = errno number | kill | short (ARG bytes are transferred) | tear (ARG bytes, then SIGKILL)
//               | shorterr (ARG bytes; the next call on any file fails with ENOSPC)
//   delay=P:US     each tracked call is preceded, with probability P/1000, by a pause of up to US microseconds
//   seed=N
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <signal.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

long vf_syscall(long nr, long a, long b, long c, long d, long e, long f);
extern char vf_syscall_ip[];
__asm__(
    ".text\n.globl vf_syscall\n.type vf_syscall,@function\nvf_syscall:\n"
    "mov %rdi,%rax\nmov %rsi,%rdi\nmov %rdx,%rsi\nmov %rcx,%rdx\nmov %r8,%r10\nmov %r9,%r8\nmov 8(%rsp),%r9\n"
    "syscall\n.globl vf_syscall_ip\nvf_syscall_ip:\nret\n.size vf_syscall,.-vf_syscall\n");
#define SYS(nr, a, b, c, d) vf_syscall(nr, (long)(a), (long)(b), (long)(c), (long)(d), 0, 0)

#define MAXFD 4096
#define PLEN 512
static char (*fdpath)[PLEN];  // "" = not tracked
static char root[PLEN];
static size_t rootlen;
static int logfd = -1, logdata;
static int active;

static struct { char ops[32]; long k, n, what, arg; long count; int errnext; } fault;
static long delayP, delayUs;
static uint64_t rnd = 88172645463325252ull;
static long counts[128];
static uint64_t lockword;
static uint64_t* shared;  // sequence number shared by the processes of one recording

static void lock(void) {
    uint64_t* w = shared ? shared + 1 : &lockword;  // with several recorded processes, one call at a time in all of them
    while (__atomic_exchange_n(w, 1, __ATOMIC_ACQUIRE)) SYS(SYS_sched_yield, 0, 0, 0, 0);
}
static void unlock(void) { __atomic_store_n(shared ? shared + 1 : &lockword, 0, __ATOMIC_RELEASE); }

static uint64_t xr(void) {
    uint64_t x = __atomic_load_n(&rnd, __ATOMIC_RELAXED);
    x ^= x << 13;
    x ^= x >> 7;
    x ^= x << 17;
    __atomic_store_n(&rnd, x, __ATOMIC_RELAXED);
    return x;
}

struct rec {
    uint32_t magic, op;
    uint64_t seq, ns;
    int32_t tid, fd;
    int64_t ret, off;
    uint32_t plen, p2len, dlen, flags;
};

static uint64_t nowns(void) {
    struct timespec t;
    SYS(SYS_clock_gettime, CLOCK_MONOTONIC, &t, 0, 0);
    return (uint64_t)t.tv_sec * 1000000000ull + t.tv_nsec;
}

static void logrec(char op, int fd, long ret, long off, const char* p, const char* p2, const void* data, long dlen, int flags) {
    if (logfd < 0) return;
    struct rec r;
    memset(&r, 0, sizeof r);
    r.magic = 0x56464c47;
    r.op = op;
    r.seq = shared ? __atomic_add_fetch(shared, 1, __ATOMIC_SEQ_CST) : 0;
    r.ns = nowns();
    r.tid = SYS(SYS_gettid, 0, 0, 0, 0);
    r.fd = fd;
    r.ret = ret;
    r.off = off;
    r.plen = p ? strlen(p) : 0;
    r.p2len = p2 ? strlen(p2) : 0;
    r.dlen = logdata && data && dlen > 0 ? dlen : 0;
    r.flags = flags;
    struct iovec v[4] = {{&r, sizeof r}, {(void*)p, r.plen}, {(void*)p2, r.p2len}, {(void*)data, r.dlen}};
    SYS(SYS_writev, logfd, v, 4, 0);
}

void vf_io_mark(const char* m) {
    lock();
    logrec('M', -1, 0, 0, m, 0, 0, 0, 0);
    unlock();
}
long vf_io_count(const char* ops) {
    long c = 0;
    for (; *ops; ++ops) c += counts[(int)*ops];
    return c;
}

static int under(const char* p) {
    return rootlen && p && !strncmp(p, root, rootlen) && (p[rootlen] == '/' || !p[rootlen]) ? 1 : 0;
}

// -> 0: go ahead; <0: return this; >0: transfer this many bytes at most (1<<40|x: then die)
static long decide(char op) {
    counts[(int)op]++;
    if (delayP && (long)(xr() % 1000) < delayP) {
        struct timespec t = {0, (long)(xr() % (delayUs + 1)) * 1000};
        SYS(SYS_nanosleep, &t, 0, 0, 0);
    }
    if (fault.errnext) {
        fault.errnext = 0;
        return -ENOSPC;
    }
    if (!fault.n || !strchr(fault.ops, op)) return 0;
    long c = ++fault.count;
    if (c < fault.k || c >= fault.k + fault.n) return 0;
    logrec('F', -1, fault.what, fault.arg, fault.ops, 0, 0, 0, op);
    if (fault.what > 0) return -fault.what;
    if (fault.what == -1) {
        SYS(SYS_kill, SYS(SYS_getpid, 0, 0, 0, 0), SIGKILL, 0, 0);
        for (;;) SYS(SYS_pause, 0, 0, 0, 0);
    }
    if (fault.what == -2) return (1L << 41) | fault.arg;
    if (fault.what == -3) return (1L << 40) | fault.arg;
    if (fault.what == -4) { fault.errnext = 1; return (1L << 41) | fault.arg; }
    return 0;
}

static const char* at(long dirfd, const char* p) {
    return p && (dirfd == AT_FDCWD || p[0] == '/') ? p : 0;
}

static long perform(long nr, const long* a) {
    long r, d, off = -1;
    char op = 0;
    const char *p = 0, *p2 = 0;
    switch (nr) {
        case SYS_open: case SYS_openat: case SYS_creat: {
            p = nr == SYS_openat ? at(a[0], (const char*)a[1]) : (const char*)a[0];
            long fl = nr == SYS_openat ? a[2] : nr == SYS_open ? a[1] : O_CREAT | O_WRONLY | O_TRUNC;
            if (!under(p)) {
                r = vf_syscall(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
                if (r >= 0 && r < MAXFD) fdpath[r][0] = 0;
                return r;
            }
            op = (fl & (O_CREAT | O_TRUNC)) ? 'c' : (fl & O_DIRECTORY) ? 'D' : (fl & O_ACCMODE) != O_RDONLY ? 'a' : 'o';
            lock();
            d = decide(op);
            struct stat st;
            int existed = SYS(SYS_stat, p, &st, 0, 0) == 0;
            r = d < 0 ? d : vf_syscall(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
            if (r >= 0 && r < MAXFD) { strncpy(fdpath[r], p, PLEN - 1); }
            logrec(op, r, r, existed, p, 0, 0, 0, fl);
            unlock();
            return r;
        }
        case SYS_close:
            if (a[0] >= 0 && a[0] < MAXFD && fdpath[a[0]][0]) {
                lock();
                d = decide('x');
                logrec('x', a[0], 0, 0, fdpath[a[0]], 0, 0, 0, 0);
                fdpath[a[0]][0] = 0;
                r = SYS(SYS_close, a[0], 0, 0, 0);
                unlock();
                return d < 0 ? d : r;
            }
            return SYS(SYS_close, a[0], 0, 0, 0);
        case SYS_mkdir: case SYS_rmdir: case SYS_unlink: case SYS_truncate: case SYS_mkdirat: case SYS_unlinkat: {
            int isat = nr == SYS_mkdirat || nr == SYS_unlinkat;
            p = isat ? at(a[0], (const char*)a[1]) : (const char*)a[0];
            if (!under(p)) break;
            op = nr == SYS_mkdir || nr == SYS_mkdirat ? 'm' : nr == SYS_truncate ? 't' : (nr == SYS_rmdir || (nr == SYS_unlinkat && a[2])) ? 'R' : 'u';
            lock();
            d = decide(op);
            r = d < 0 ? d : vf_syscall(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
            logrec(op, -1, r, op == 't' ? a[1] : 0, p, 0, 0, 0, 0);
            unlock();
            return r;
        }
        case SYS_rename: case SYS_renameat: case SYS_renameat2: case SYS_link: case SYS_linkat: case SYS_symlink: {
            if (nr == SYS_rename || nr == SYS_link || nr == SYS_symlink) { p = (const char*)a[0]; p2 = (const char*)a[1]; }
            else { p = at(a[0], (const char*)a[1]); p2 = at(a[2], (const char*)a[3]); }
            if (!under(p) && !under(p2)) break;
            op = nr == SYS_link || nr == SYS_linkat ? 'l' : nr == SYS_symlink ? 'y' : 'n';
            lock();
            d = decide(op);
            r = d < 0 ? d : vf_syscall(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
            logrec(op, -1, r, 0, p, p2, 0, 0, 0);
            unlock();
            return r;
        }
        case SYS_write: case SYS_pwrite64: case SYS_read: case SYS_pread64: case SYS_writev: case SYS_readv:
        case SYS_fsync: case SYS_fdatasync: case SYS_ftruncate: case SYS_fallocate: {
            if (a[0] < 0 || a[0] >= MAXFD || !fdpath[a[0]][0]) break;
            op = nr == SYS_write || nr == SYS_pwrite64 || nr == SYS_writev ? 'w' : nr == SYS_read || nr == SYS_pread64 || nr == SYS_readv ? 'r'
                 : nr == SYS_fsync ? 's' : nr == SYS_fdatasync ? 's' : nr == SYS_fallocate ? 'A' : 't';
            lock();
            d = decide(op);
            if (d < 0) r = d;
            else if (d > 0 && (op == 'w' || op == 'r') && nr != SYS_writev && nr != SYS_readv) {
                long lim = d & ((1L << 40) - 1);
                r = vf_syscall(nr, a[0], a[1], a[2] < lim ? a[2] : lim, a[3], a[4], a[5]);
                if (d & (1L << 40)) {
                    SYS(SYS_kill, SYS(SYS_getpid, 0, 0, 0, 0), SIGKILL, 0, 0);
                    for (;;) SYS(SYS_pause, 0, 0, 0, 0);
                }
            }
            else r = vf_syscall(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
            if (op == 'w' && r > 0) {
                off = nr == SYS_pwrite64 ? a[3] : SYS(SYS_lseek, a[0], 0, SEEK_CUR, 0) - r;
                if (nr == SYS_writev) {
                    const struct iovec* v = (const struct iovec*)a[1];
                    long left = r, o = off;
                    for (int i = 0; i < a[2] && left > 0; ++i) {
                        long n = (long)v[i].iov_len < left ? (long)v[i].iov_len : left;
                        logrec('w', a[0], n, o, fdpath[a[0]], 0, v[i].iov_base, n, 0);
                        o += n;
                        left -= n;
                    }
                    unlock();
                    return r;
                }
            }
            if (op == 't') off = a[1];
            if (op != 'r' || d) logrec(op, a[0], r, off, fdpath[a[0]], 0, op == 'w' && r > 0 ? (void*)a[1] : 0, r, 0);
            unlock();
            return r;
        }
        case SYS_sendfile: case SYS_copy_file_range:
            return -ENOSYS;
    }
    return vf_syscall(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
}

static void onsys(int sig, siginfo_t* si, void* uc) {
    ucontext_t* c = uc;
    greg_t* g = c->uc_mcontext.gregs;
    long a[6] = {g[REG_RDI], g[REG_RSI], g[REG_RDX], g[REG_R10], g[REG_R8], g[REG_R9]};
    g[REG_RAX] = perform(si->si_syscall, a);
}

// SIGSYS must stay deliverable
typedef int (*maskfn)(int, const sigset_t*, sigset_t*);
#include <dlfcn.h>
static int mask(const char* name, int how, const sigset_t* set, sigset_t* old) {
    maskfn f = (maskfn)dlsym(RTLD_NEXT, name);
    sigset_t s;
    if (set && how != SIG_UNBLOCK) {
        s = *set;
        sigdelset(&s, SIGSYS);
        set = &s;
    }
    return f(how, set, old);
}
int pthread_sigmask(int how, const sigset_t* set, sigset_t* old) { return mask("pthread_sigmask", how, set, old); }
int sigprocmask(int how, const sigset_t* set, sigset_t* old) { return mask("sigprocmask", how, set, old); }

// POSIX asynchronous I/O would run in libc threads with every signal blocked: done at once instead
#include <aio.h>
static int aio(struct aiocb* cb, long nr) {
    long a[6] = {cb->aio_fildes, (long)cb->aio_buf, (long)cb->aio_nbytes, cb->aio_offset, 0, 0};
    long r = perform(nr, a);
    cb->__error_code = r < 0 ? -r : 0;
    cb->__return_value = r < 0 ? -1 : r;
    return 0;
}
int aio_write(struct aiocb* cb) { return aio(cb, SYS_pwrite64); }
int aio_write64(struct aiocb64* cb) { return aio((struct aiocb*)cb, SYS_pwrite64); }
int aio_read(struct aiocb* cb) { return aio(cb, SYS_pread64); }
int aio_fsync(int op, struct aiocb* cb) { return aio(cb, SYS_fdatasync); }
int aio_fsync64(int op, struct aiocb64* cb) { return aio((struct aiocb*)cb, SYS_fdatasync); }

static long val(const char* s) { return strtol(s, 0, 0); }

void vf_io(const char* spec) {
    char buf[4096], *sv = 0;
    strncpy(buf, spec, sizeof buf - 1);
    buf[sizeof buf - 1] = 0;
    for (char* t = strtok_r(buf, ";", &sv); t; t = strtok_r(0, ";", &sv)) {
        char* v = strchr(t, '=');
        if (!v) continue;
        *v++ = 0;
        if (!strcmp(t, "root")) { strncpy(root, v, PLEN - 1); rootlen = strlen(root); }
        else if (!strcmp(t, "data")) logdata = val(v);
        else if (!strcmp(t, "seed")) rnd ^= (uint64_t)val(v) * 0x9E3779B97F4A7C15ull;
        else if (!strcmp(t, "log")) {
            int fd = open(v, O_CREAT | O_WRONLY | O_APPEND | O_CLOEXEC, 0666);
            logfd = fcntl(fd, F_DUPFD_CLOEXEC, 1000);
            close(fd);
        }
        else if (!strcmp(t, "seq")) {
            int fd = open(v, O_CREAT | O_RDWR | O_CLOEXEC, 0666);
            if (ftruncate(fd, 4096)) {}
            shared = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            close(fd);
        }
        else if (!strcmp(t, "delay")) { delayP = val(v); char* q = strchr(v, ':'); delayUs = q ? val(q + 1) : 1000; }
        else if (!strcmp(t, "reset")) memset(counts, 0, sizeof counts);
        else if (!strcmp(t, "fault")) {
            char* s2 = 0;
            memset(&fault, 0, sizeof fault);
            char* ops = strtok_r(v, ":", &s2);
            if (!ops || !strcmp(ops, "off")) continue;
            strncpy(fault.ops, ops, sizeof fault.ops - 1);
            char *k = strtok_r(0, ":", &s2), *n = strtok_r(0, ":", &s2), *w = strtok_r(0, ":", &s2), *g = strtok_r(0, ":", &s2);
            fault.k = val(k);
            fault.what = !strcmp(w, "kill") ? -1 : !strcmp(w, "short") ? -2 : !strcmp(w, "tear") ? -3 : !strcmp(w, "shorterr") ? -4 : val(w);
            fault.arg = g ? val(g) : 0;
            fault.n = val(n);
        }
    }
}

__attribute__((constructor)) static void init(void) {
    const char* spec = getenv("VF_IO");
    if (!spec || active) return;
    active = 1;
    fdpath = mmap(0, (size_t)MAXFD * PLEN, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    vf_io(spec);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = onsys;
    sa.sa_flags = SA_SIGINFO | SA_NODEFER | SA_RESTART;
    sigaction(SIGSYS, &sa, 0);
    static const int nrs[] = {SYS_open, SYS_openat, SYS_creat, SYS_close, SYS_write, SYS_pwrite64, SYS_writev, SYS_fsync, SYS_fdatasync,
        SYS_rename, SYS_renameat, SYS_renameat2, SYS_unlink, SYS_unlinkat, SYS_mkdir, SYS_mkdirat, SYS_rmdir, SYS_ftruncate, SYS_truncate,
        SYS_fallocate, SYS_link, SYS_linkat, SYS_symlink, SYS_sendfile, SYS_copy_file_range, SYS_read, SYS_pread64, SYS_readv};
    enum { N = sizeof nrs / sizeof *nrs };
    struct sock_filter f[8 + N + 2];
    int k = 0;
    uint64_t ip = (uint64_t)vf_syscall_ip;
    f[k++] = (struct sock_filter)BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, instruction_pointer));
    f[k++] = (struct sock_filter)BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (uint32_t)ip, 0, 3);
    f[k++] = (struct sock_filter)BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, instruction_pointer) + 4);
    f[k++] = (struct sock_filter)BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (uint32_t)(ip >> 32), 0, 1);
    f[k++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
    f[k++] = (struct sock_filter)BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr));
    for (int i = 0; i < N; ++i) f[k++] = (struct sock_filter)BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, nrs[i], N - i, 0);
    f[k++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
    f[k++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP);
    struct sock_fprog prog = {k, f};
    if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) || prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &prog)) {
        static const char m[] = "iofault: no seccomp\n";
        if (write(2, m, sizeof m - 1)) {}
        _exit(97);
    }
}

// eckit waits a minute for space on a full disk
unsigned sleep(unsigned s) {
    struct timespec t = {0, 2000000};
    (void)s;
    SYS(SYS_nanosleep, &t, 0, 0, 0);
    return 0;
}
