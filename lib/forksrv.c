/*
 * Fork server linked into the program under test (gcc ... forksrv.o -Wl,--wrap=main).
 *
 * The program itself is untouched: the linker redirects the start-up code's
 * reference to main() to __wrap_main() below, and every case runs the real
 * main() in a freshly forked child, with its own argv, files and stdout.
 *
 * Without VF_SRV in the environment the program behaves as if this file did
 * not exist.
 *
 * Protocol: the client writes a batch of requests to ./req.bin and sends one
 * byte on stdin; the server runs them in order, writes ./res.bin and answers
 * with one byte on stdout.  All integers are little-endian 32 bit.
 *
 *   batch   : count, request*
 *   request : cpu_ms, fsize_limit, flags, nargs, str*, nfiles, (str, str)*, nouts, str*
 *   answer  : count, result*
 *   result  : wait_status, str(stdout), str(stderr), nouts, str* (length -1 = missing)
 *
 * The server stops a batch early, with fewer results than requests, behind a case that
 * ran into its time limit and when the results get very large.
 *
 * A file name starting with '@' makes a symbolic link (name without '@') to the data;
 * one ending in '/' only makes the directory.
 *
 * flags: 1 = do not delete the request's files and outputs afterwards
 *        2 = do not delete stale outputs beforehand
 *        4 = stdin of the child closed (default: /dev/null)
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <time.h>
#include <sys/time.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

int __real_main(int ac, char **av);

static unsigned char *rq; static size_t rqlen, rqpos;
static unsigned char *rs; static size_t rslen, rscap;

static void die(const char *s) { perror(s); _exit(97); }

static uint32_t g32(void)
{
    uint32_t v;
    if (rqpos + 4 > rqlen) die("request truncated");
    memcpy(&v, rq + rqpos, 4); rqpos += 4; return v;
}
static char *gstr(uint32_t *len)
{
    uint32_t n = g32(); char *p;
    if (rqpos + n > rqlen) die("request truncated");
    p = malloc(n + 1); memcpy(p, rq + rqpos, n); p[n] = 0; rqpos += n;
    if (len) *len = n;
    return p;
}
static void need(size_t n)
{
    if (rslen + n > rscap) {
        rscap = (rslen + n) * 2 + 65536;
        rs = realloc(rs, rscap);
        if (!rs) die("realloc");
    }
}
static void p32(uint32_t v) { need(4); memcpy(rs + rslen, &v, 4); rslen += 4; }
static void pfd(int fd)
{
    struct stat st; off_t off = 0; size_t n;
    if (fstat(fd, &st) < 0) { p32((uint32_t)-1); return; }
    n = st.st_size; if (n > (64u << 20)) n = 64u << 20;
    p32(n); need(n);
    while ((size_t)off < n) {
        ssize_t k = pread(fd, rs + rslen + off, n - off, off);
        if (k <= 0) break;
        off += k;
    }
    if ((size_t)off < n) memset(rs + rslen + off, 0, n - off);
    rslen += n;
}
static void mkparents(char *name)
{
    char *p;
    for (p = strchr(name, '/'); p; p = strchr(p + 1, '/')) {
        if (p == name) continue;
        *p = 0; mkdir(name, 0700); *p = '/';
    }
}

static int mo, me, dn;

static int stackfill = -1;
static rlim_t mapped;                   /* what a sanitizer has mapped already */

/* leave known garbage where the tool's first stack frames will be */
static __attribute__((noinline)) void dirty(void)
{
    volatile char b[256 * 1024];
    size_t i;
    for (i = 0; i < sizeof b; i++) b[i] = stackfill;
}

#ifdef LIMIT_AS
/* the clock as the tool sees it: VF_TIME seconds ahead */
static long ahead;
static char *anyenv;
time_t __real_time(time_t *);
time_t __wrap_time(time_t *t) { time_t v = __real_time(0) + ahead; if (t) *t = v; return v; }
int __real_gettimeofday(struct timeval *, void *);
int __wrap_gettimeofday(struct timeval *tv, void *z) { int r = __real_gettimeofday(tv, z); if (!r && tv) tv->tv_sec += ahead; return r; }
char *__real_getenv(const char *);
char *__wrap_getenv(const char *n)
{
    /* with VF_ANYENV every variable is set for the program, except the C library's own */
    static const char *own[] = { "LC_", "LANG", "TZ", "MALLOC_", "GLIBC_", "LD_", "LOCPATH", "NLSPATH", "VF_", 0 };
    char *v = __real_getenv(n);
    int i;
    if (v || !anyenv) return v;
    for (i = 0; own[i]; i++) if (!strncmp(n, own[i], strlen(own[i]))) return 0;
    return anyenv;
}
int __real_clock_gettime(clockid_t, struct timespec *);
int __wrap_clock_gettime(clockid_t c, struct timespec *ts) { int r = __real_clock_gettime(c, ts); if (!r) ts->tv_sec += ahead; return r; }
#endif

static void tick(int s) { (void)s; }

/* memory held by a case; a sanitizer's allocator escapes RLIMIT_AS */
static rlim_t resident(pid_t pid)
{
    char b[64]; unsigned long v, r = 0; FILE *f;
    snprintf(b, sizeof b, "/proc/%d/statm", (int)pid);
    f = fopen(b, "r");
    if (!f) return 0;
    if (fscanf(f, "%lu %lu", &v, &r) != 2) r = 0;
    fclose(f);
    return (rlim_t)r * sysconf(_SC_PAGESIZE);
}

static int one(void)
{
    uint32_t cpu = g32(), fsz = g32(), flags = g32(), na, nf, no, i, len;
    char **av, **fn, **on; int st = 0; pid_t pid;

    na = g32(); av = calloc(na + 1, sizeof *av);
    for (i = 0; i < na; i++) av[i] = gstr(0);
    nf = g32(); fn = calloc(nf + 1, sizeof *fn);
    for (i = 0; i < nf; i++) {
        char *data; int fd; size_t off = 0;
        fn[i] = gstr(0); data = gstr(&len);
        if (fn[i][0] == '@') {
            memmove(fn[i], fn[i] + 1, strlen(fn[i]));
            mkparents(fn[i]);
            unlink(fn[i]);
            if (symlink(data, fn[i])) die("symlink");
            free(data);
            continue;
        }
        mkparents(fn[i]);
        if (fn[i][0] && fn[i][strlen(fn[i]) - 1] != '/') {
            fd = open(fn[i], O_WRONLY | O_CREAT | O_TRUNC, 0600);
            if (fd < 0) { unlink(fn[i]); rmdir(fn[i]); fd = open(fn[i], O_WRONLY | O_CREAT | O_TRUNC, 0600); }
            if (fd < 0) die(fn[i]);
            while (off < len) { ssize_t k = write(fd, data + off, len - off); if (k <= 0) die("write"); off += k; }
            close(fd);
        }
        free(data);
    }
    no = g32(); on = calloc(no + 1, sizeof *on);
    for (i = 0; i < no; i++) {
        uint32_t j; int isin = 0;
        on[i] = gstr(0);
        for (j = 0; j < nf; j++) if (!strcmp(on[i], fn[j])) isin = 1;
        if (!(flags & 2) && !isin) unlink(on[i]);
    }
    if (ftruncate(mo, 0) || ftruncate(me, 0)) die("ftruncate");
    lseek(mo, 0, SEEK_SET); lseek(me, 0, SEEK_SET);

    pid = fork();
    if (pid < 0) die("fork");
    if (pid == 0) {
        struct itimerval it; struct rlimit rl;
        memset(&it, 0, sizeof it);
        it.it_value.tv_sec = cpu / 1000; it.it_value.tv_usec = (cpu % 1000) * 1000;
        signal(SIGPROF, SIG_DFL); signal(SIGALRM, SIG_DFL); signal(SIGXFSZ, SIG_IGN);
        setitimer(ITIMER_PROF, &it, 0);
        /* a case that blocks instead of computing: generous wall clock bound */
        alarm(60 + cpu / 1000);
        rl.rlim_cur = rl.rlim_max = fsz; 
        dup2(mo, 1); dup2(me, 2);
        if (flags & 4) close(0); else dup2(dn, 0);
        if (fsz != 0xffffffffu) setrlimit(RLIMIT_FSIZE, &rl);
        rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
        /* runaway allocation must not exhaust the machine */
        rl.rlim_cur = rl.rlim_max = mapped + ((rlim_t)2 << 30); setrlimit(RLIMIT_AS, &rl);
        if (stackfill >= 0) dirty();
        exit(__real_main(na, av));
    }
    {
        struct itimerval it = { { 0, 50000 }, { 0, 50000 } }, off = { { 0, 0 }, { 0, 0 } };
        setitimer(ITIMER_REAL, &it, 0);
        while (waitpid(pid, &st, 0) < 0) {
            if (errno != EINTR) die("waitpid");
            if (resident(pid) > ((rlim_t)2 << 30)) kill(pid, SIGKILL);
        }
        setitimer(ITIMER_REAL, &off, 0);
    }
    p32(st);
    pfd(mo); pfd(me);
    p32(no);
    for (i = 0; i < no; i++) {
        struct stat so; int fd = stat(on[i], &so) == 0 && S_ISREG(so.st_mode) ? open(on[i], O_RDONLY) : -1;
        if (fd < 0) p32((uint32_t)-1); else { pfd(fd); close(fd); }
    }
    if (!(flags & 1)) {
        for (i = nf; i-- > 0; ) if (unlink(fn[i]) && errno == EISDIR) rmdir(fn[i]);
        for (i = 0; i < no; i++) unlink(on[i]);
    }
    for (i = 0; i < na; i++) free(av[i]);
    for (i = 0; i < nf; i++) free(fn[i]);
    for (i = 0; i < no; i++) free(on[i]);
    free(av); free(fn); free(on);
    return WIFSIGNALED(st) && (WTERMSIG(st) == SIGPROF || WTERMSIG(st) == SIGALRM);
}

int __wrap_main(int ac, char **av)
{
    if (!getenv("VF_SRV")) return __real_main(ac, av);
    unsetenv("VF_SRV");
    if (getenv("VF_UID")) {
        /* run cases without privileges where we may */
        int u = atoi(getenv("VF_UID"));
        unsetenv("VF_UID");
        if (getuid() == 0 && setresgid(u, u, u) == 0 && setresuid(u, u, u) != 0) die("setresuid");
    }
    if (getenv("VF_STACK")) { stackfill = atoi(getenv("VF_STACK")) & 255; unsetenv("VF_STACK"); }
#ifdef LIMIT_AS
    if (getenv("VF_ANYENV")) { anyenv = strdup(getenv("VF_ANYENV")); unsetenv("VF_ANYENV"); }
    if (getenv("VF_TIME")) { ahead = atol(getenv("VF_TIME")); unsetenv("VF_TIME"); }
#endif
    {
        unsigned long pages = 0; FILE *f = fopen("/proc/self/statm", "r");
        if (f) { if (fscanf(f, "%lu", &pages) != 1) pages = 0; fclose(f); }
        mapped = (rlim_t)pages * sysconf(_SC_PAGESIZE);
    }
    { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = tick; sigaction(SIGALRM, &sa, 0); }
    /* results are returned through files only, so fd 1 must not be inherited */
    int in = fcntl(0, F_DUPFD_CLOEXEC, 100), out = fcntl(1, F_DUPFD_CLOEXEC, 100);
    mo = memfd_create("o", MFD_CLOEXEC); me = memfd_create("e", MFD_CLOEXEC);
    dn = open("/dev/null", O_RDWR | O_CLOEXEC);
    if (in < 0 || out < 0 || mo < 0 || me < 0 || dn < 0) die("setup");
    for (;;) {
        char c; int fd; struct stat st; uint32_t n, done; size_t off;
        ssize_t k = read(in, &c, 1);
        if (k <= 0) _exit(0);
        fd = open("req.bin", O_RDONLY);
        if (fd < 0 || fstat(fd, &st) < 0) die("req.bin");
        rqlen = st.st_size; rq = malloc(rqlen + 1); rqpos = 0;
        for (off = 0; off < rqlen; ) { k = read(fd, rq + off, rqlen - off); if (k <= 0) die("read"); off += k; }
        close(fd);
        rslen = 0; p32(0);
        for (n = g32(), done = 0; n; n--) { done++; if (one() || rslen > (256u << 20)) break; }
        memcpy(rs, &done, 4);
        free(rq); rq = 0;
        fd = open("res.bin", O_WRONLY | O_CREAT | O_TRUNC, 0600);
        if (fd < 0) die("res.bin");
        for (off = 0; off < rslen; ) { k = write(fd, rs + off, rslen - off); if (k <= 0) die("write"); off += k; }
        close(fd);
        if (write(out, &c, 1) != 1) _exit(0);
    }
}
