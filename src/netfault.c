// LD_PRELOAD: breaks one TCP message of the process (or of one of its forked children).
// VF_NET="arm=FILE;once=FILE;n=K;what=cut|kill|flip|junk|none;part=B;off=O;mask=M;kind=any|head|body;log=FILE"
// Writes to connected TCP sockets are counted once FILE `arm` exists; the K-th one of the wanted kind is hit, once overall.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <signal.h>
#include <stdatomic.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

static char arm[512], once[512], logf_[512], what[16], kind[16];
static long n_ = -1, part_, off_, mask_;
static atomic_long count_;
static int on;

static long num(const char* s, const char* k) {
    char b[64];
    snprintf(b, sizeof b, ";%s=", k);
    const char* p = strstr(s, b);
    return p ? strtol(p + strlen(b), 0, 10) : 0;
}
static void str(const char* s, const char* k, char* out, size_t m) {
    char b[64];
    snprintf(b, sizeof b, ";%s=", k);
    const char* p = strstr(s, b);
    out[0] = 0;
    if (!p) return;
    p += strlen(b);
    size_t i = 0;
    while (*p && *p != ';' && i + 1 < m) out[i++] = *p++;
    out[i] = 0;
}
__attribute__((constructor)) static void init(void) {
    const char* e = getenv("VF_NET");
    if (!e) return;
    char s[2048];
    snprintf(s, sizeof s, ";%s", e);
    str(s, "arm", arm, sizeof arm), str(s, "once", once, sizeof once), str(s, "log", logf_, sizeof logf_);
    str(s, "what", what, sizeof what), str(s, "kind", kind, sizeof kind);
    n_ = num(s, "n"), part_ = num(s, "part"), off_ = num(s, "off"), mask_ = num(s, "mask");
    on = 1;
}
static int tcp(int fd) {
    struct sockaddr_storage a;
    socklen_t l = sizeof a;
    if (getpeername(fd, (struct sockaddr*)&a, &l) != 0) return 0;
    return a.ss_family == AF_INET || a.ss_family == AF_INET6;
}
static ssize_t rawwrite(int fd, const void* b, size_t l) {
    return syscall(SYS_sendto, fd, b, l, MSG_NOSIGNAL, 0, 0);
}
static void note(const char* w, long c, size_t len, const void* b) {
    if (!logf_[0]) return;
    int f = syscall(SYS_openat, AT_FDCWD, logf_, O_WRONLY | O_CREAT | O_APPEND, 0644);
    char t[200];
    int msg = -1;
    if (len == 36 && !memcmp(b, "SFDB", 4)) msg = *(const unsigned short*)((const char*)b + 6);
    int k = snprintf(t, sizeof t, "%s %ld %zu %d pid=%d\n", w, c, len, msg, (int)getpid());
    syscall(SYS_write, f, t, k);
    syscall(SYS_close, f);
}
// returns 1 when the write has been dealt with (result in *res)
static int hit(int fd, const void* b, size_t len, ssize_t* res) {
    if (!on || fd < 3 || len == 0 || !tcp(fd)) return 0;
    if (arm[0] && access(arm, F_OK) != 0) return 0;
    int head = len == 36 && !memcmp(b, "SFDB", 4);
    if (!strcmp(kind, "head") && !head) return 0;
    if (!strcmp(kind, "body") && (head || len == 4)) return 0;
    long c = atomic_fetch_add(&count_, 1);
    if (c != n_) return 0;
    if (once[0]) {
        int f = syscall(SYS_openat, AT_FDCWD, once, O_WRONLY | O_CREAT | O_EXCL, 0644);
        if (f < 0) return 0;
        syscall(SYS_close, f);
    }
    note(what, c, len, b);
    size_t p = part_ % (len + 1);
    if (!strcmp(what, "cut")) {
        if (p) rawwrite(fd, b, p);
        shutdown(fd, SHUT_RDWR);
        *res = rawwrite(fd, (const char*)b + p, len - p);
        return 1;
    }
    if (!strcmp(what, "kill")) {
        if (p) rawwrite(fd, b, p);
        kill(getpid(), SIGKILL);
        for (;;) pause();
    }
    if (!strcmp(what, "flip") || !strcmp(what, "junk")) {
        char* q = malloc(len);
        memcpy(q, b, len);
        if (what[0] == 'f') q[off_ % len] ^= (char)(mask_ % 255 + 1);
        else for (size_t i = p; i < len; i++) q[i] = (char)((i * 2654435761u + mask_) >> 7);
        *res = rawwrite(fd, q, len);
        free(q);
        return 1;
    }
    return 0;
}
#define REAL(name, ret, ...) static ret (*real)(__VA_ARGS__); if (!real) real = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, name)
ssize_t write(int fd, const void* b, size_t l) {
    REAL("write", ssize_t, int, const void*, size_t);
    ssize_t r;
    return hit(fd, b, l, &r) ? r : real(fd, b, l);
}
ssize_t send(int fd, const void* b, size_t l, int fl) {
    REAL("send", ssize_t, int, const void*, size_t, int);
    ssize_t r;
    return hit(fd, b, l, &r) ? r : real(fd, b, l, fl);
}
ssize_t sendto(int fd, const void* b, size_t l, int fl, const struct sockaddr* a, socklen_t al) {
    REAL("sendto", ssize_t, int, const void*, size_t, int, const struct sockaddr*, socklen_t);
    ssize_t r;
    return hit(fd, b, l, &r) ? r : real(fd, b, l, fl, a, al);
}

// waiting before another attempt to connect: much shorter with VF_SLEEP_MS
unsigned int sleep(unsigned int s) {
    const char* e = getenv("VF_SLEEP_MS");
    usleep((useconds_t)s * 1000 * (e ? atoi(e) : 1000));
    return 0;
}
