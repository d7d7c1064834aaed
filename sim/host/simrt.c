/* simhost runtime: a deterministic environment for the host-built compiler.
 *
 * The compiler's unity build (unit.c, with main renamed) is linked against this
 * file.  Each run happens in a forked child; its files live in shared memory so
 * that what was durable when the child ended (or was killed) is what is left.
 * The scenario on standard input decides heap placement, heap and stack
 * residue, allocation failures, read chunking, every open/read/write/close
 * failure, the disk capacity and the step at which the process is killed. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdbool.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <alloca.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/personality.h>

typedef uint64_t u64;
int unit_main(int argc, char **argv);

#define MAXFILES 320
#define MAXOPEN 1024
#define PATHLEN 256
#define FILECAP (2u << 20)
#define HISTCAP (4u << 20)
#define MAXFAULT 256

typedef struct {
    char path[PATHLEN];
    int used;
    int kind; /* 0 file 1 dir */
    int perm; /* 0 rw 1 ro 2 noread */
    u64 len;
    char *data;
} file_t;

typedef struct {
    char name[16], kind[16];
    long nth, arg;
    u64 hits;
} fault_t;

typedef struct {
    /* result */
    int status; /* 0 running, 1 exit, 2 abort, 3 kill, 4 limit, 5 heap misuse */
    int code;
    char why[128];
    u64 nstep, allocs, bytes, frees, canary, badfree, leaked, badstore, badload, badpc;
    u64 nsys[16];
    u64 trace;
    u64 disk_used;
    u64 histlen;
    int overflow;
    u64 events; /* number of simulated system calls */
    int openhandles;
    int nf;
    fault_t f[MAXFAULT];
    file_t files[MAXFILES];
    u64 outlen, errlen;
    char out[FILECAP], err[1 << 16];
    char hist[HISTCAP];
} shared_t;

static shared_t nowhere;    /* for what runs before main */
static shared_t *S = &nowhere;
static char *filemem;

/* scenario */
static u64 seed;
static int residue;       /* 0 zero 1 0xff 2 random 3 0x41 4 small ints 5 valid-looking pointers */
static int hplace;        /* 0 packed up, 1 random gaps, 2 descending, 3 page per block */
static long alloc_fail;   /* nth allocation fails (1-based) */
static int alloc_fail_sticky;
static u64 alloc_limit;
static u64 max_steps, kill_step;
static int read_chunk;    /* 0: as asked; >0: fixed; -1: random */
static int write_chunk;
static u64 disk_cap;
static int want_hist;
static int stack_res;     /* stack residue kind */
static int stack_shift;
static int stdout_mode;   /* 0 full buffer, 1 line buffer */
static int stdclosed;     /* bit n: descriptor n is closed when the process starts */
static u64 stdout_cap;    /* standard output fails after so many bytes ... */
static int stdout_err;    /* ... with this error */
static int nargs;
static char *args[64];
static int nenv;
static char *envs[32];
static int nodump;
static u64 rng;

static u64 sm(u64 *s)
{
    u64 z = (*s += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}
static u64 fnv(u64 h, const void *p, size_t n)
{
    const unsigned char *b = p;
    for (size_t i = 0; i < n; i++) {
        h ^= b[i];
        h *= 1099511628211ULL;
    }
    return h;
}

static void hist(const char *fmt, ...)
{
    char b[400];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    if (n >= (int) sizeof b)
        n = sizeof b - 1;
    S->trace = fnv(S->trace, b, n);
    if (want_hist && S->histlen + n + 1 < HISTCAP) {
        memcpy(S->hist + S->histlen, b, n);
        S->histlen += n;
        S->hist[S->histlen++] = '\n';
    }
}

/* ---- simulated time: one step per instrumented basic block ---- */
#define steps (S->nstep)
static volatile int in_unit;
static u64 next_stop = ~0ULL;

/* present when the unit is compiled with the address sanitizer */
void __asan_poison_memory_region(void const volatile *, size_t) __attribute__((weak));
void __asan_unpoison_memory_region(void const volatile *, size_t) __attribute__((weak));
const char *__asan_get_report_description(void) __attribute__((weak));
int __asan_get_report_access_type(void) __attribute__((weak));
void *__asan_get_report_pc(void) __attribute__((weak));
extern char __executable_start;
static void poison(const void *p, size_t n)
{
    if (__asan_poison_memory_region)
        __asan_poison_memory_region(p, n);
}
static void unpoison(const void *p, size_t n)
{
    if (__asan_unpoison_memory_region)
        __asan_unpoison_memory_region(p, n);
}

static void finish(int status, int code, const char *why)
{
    S->status = status;
    S->code = code;
    if (why)
        snprintf(S->why, sizeof S->why, "%s", why);
    _exit(0);
}

const char *__asan_default_options(void)
{
    return "detect_leaks=0:halt_on_error=0:log_path=/dev/null:print_legend=0:print_full_thread_history=0:"
           "symbolize=0:detect_stack_use_after_return=0:handle_segv=0:handle_sigbus=0:handle_sigfpe=0:handle_abort=0:"
           "suppress_equal_pcs=1:allocator_may_return_null=1:check_initialization_order=0:detect_odr_violation=0";
}
void __asan_on_error(void)
{
    const char *d = __asan_get_report_description ? __asan_get_report_description() : "?";
    if (__asan_get_report_access_type && __asan_get_report_access_type()) {
        char b[100];
        snprintf(b, sizeof b, "%s by a store", d);
        S->badstore++;
        S->badpc = (u64) __asan_get_report_pc() - (u64) &__executable_start;
        finish(5, 6, b);
    }
    if (!S->badload++)
        S->badpc = (u64) __asan_get_report_pc() - (u64) &__executable_start;
}

void __sanitizer_cov_trace_pc(void)
{
    if (__builtin_expect(++steps >= next_stop, 0)) {
        if (!in_unit)
            return;
        if (kill_step && steps >= kill_step)
            finish(3, 9, "killed at step");
        if (steps >= max_steps)
            finish(4, 0, "step limit");
    }
}

/* ---- heap ---- */
/* above the shadow memory of the address sanitizer */
#define ARENA_BASE 0x200000000000ULL
#define ARENA_SIZE (6ULL << 30)
#define CANARY 16
typedef struct {
    u64 magic, size;
} hdr_t;
#define LIVE 0x51e00ca11ab1e001ULL
#define DEAD 0xdeadbeefdeadbeefULL
static char *arena_lo, *arena_hi, *arena_cur;
static u64 live_bytes;
static hdr_t **blocks;
static size_t nblocks, capblocks;

#define IMG (32u << 20)
static int imgfd[8];
/* The residue is laid down once per kind in a memory file; a run maps it
 * copy-on-write under its whole arena, so what an allocation returns already
 * contains that residue and only touched pages cost anything. */
static int image(int kind)
{
    if (kind < 0 || kind > 7)
        kind = 2;
    if (imgfd[kind])
        return imgfd[kind];
    int fd = memfd_create("residue", 0);
    if (fd < 0 || ftruncate(fd, IMG))
        return -1;
    if (kind) {
        char *p = mmap(NULL, IMG, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (p == MAP_FAILED)
            return -1;
        u64 s = kind * 1234567;
        switch (kind) {
        case 1: memset(p, 0xff, IMG); break;
        case 3: memset(p, 0x41, IMG); break;
        case 4:
            for (size_t i = 0; i < IMG; i += 4) {
                uint32_t v = sm(&s) % 5;
                memcpy(p + i, &v, 4);
            }
            break;
        case 5:
            for (size_t i = 0; i < IMG; i += 8) {
                u64 v = ARENA_BASE + ((sm(&s) % (1 << 20)) & ~15UL);
                memcpy(p + i, &v, 8);
            }
            break;
        default:
            for (size_t i = 0; i < IMG; i += 8) {
                u64 v = sm(&s);
                memcpy(p + i, &v, 8);
            }
        }
        munmap(p, IMG);
    }
    return imgfd[kind] = fd;
}
static void fill(char *p, size_t n, u64 s)
{
    if (residue == 0)
        memset(p, 0, n);
    else if (residue == 1)
        memset(p, 0xff, n);
    else
        for (size_t i = 0; i < n; i += 8) {
            u64 v = residue == 3 ? 0x4141414141414141ULL : residue == 4 ? sm(&s) & 0x0000000300000003ULL : sm(&s);
            memcpy(p + i, &v, n - i < 8 ? n - i : 8);
        }
}
static void canary_fill(hdr_t *h)
{
    u64 s = (u64) h;
    unsigned char *e = (unsigned char *) (h + 1) + h->size;
    for (int i = 0; i < CANARY; i++)
        e[i] = (unsigned char) sm(&s);
}
static int canary_ok(hdr_t *h)
{
    u64 s = (u64) h;
    unsigned char *e = (unsigned char *) (h + 1) + h->size;
    for (int i = 0; i < CANARY; i++)
        if (e[i] != (unsigned char) sm(&s))
            return 0;
    return 1;
}
static void *heap_new(size_t n, int zero)
{
    S->allocs++;
    int fail = 0;
    if (alloc_fail && ((long) S->allocs == alloc_fail || (alloc_fail_sticky && (long) S->allocs > alloc_fail)))
        fail = 1;
    if (n > ARENA_SIZE || live_bytes + n > alloc_limit)
        fail = 2;
    if (n <= ARENA_SIZE && (u64) (arena_hi - arena_cur) < n + 16384)
        fail = 3; /* the simulated machine has no more address space */
    if (fail) {
        hist("A %llu %zu FAIL", (unsigned long long) S->allocs, n);
        S->nsys[8]++;
        errno = ENOMEM;
        return NULL;
    }
    size_t tot = (sizeof(hdr_t) + n + CANARY + 15) & ~15UL;
    if (!n)
        tot = 48;
    char *p;
    size_t gap = 0;
    if (hplace == 1)
        gap = (sm(&rng) % 64) * 16;
    else if (hplace == 3)
        gap = 4096;
    if (hplace == 2) {
        if (arena_hi - arena_cur < 0)
            abort();
        arena_hi -= tot;
        if (arena_hi < arena_cur)
            finish(4, 1, "arena exhausted");
        p = arena_hi;
    } else {
        arena_cur += gap;
        p = arena_cur;
        if (p + tot > arena_hi)
            finish(4, 1, "arena exhausted");
        arena_cur += tot;
    }
    hdr_t *h = (hdr_t *) p;
    unpoison(p, tot);
    h->magic = LIVE;
    h->size = n;
    canary_fill(h);
    if (zero && residue)
        memset(h + 1, 0, n);
    live_bytes += n;
    S->bytes += n;
    if (nblocks == capblocks) {
        capblocks = capblocks ? capblocks * 2 : 65536;
        blocks = realloc(blocks, capblocks * sizeof *blocks);
    }
    blocks[nblocks++] = h;
    if (__asan_poison_memory_region) {
        char *e = (char *) (h + 1) + n;
        poison(p - (hplace == 3 ? 4096 : 0), (hplace == 3 ? 4096 : 0) + sizeof(hdr_t));
        unpoison(h + 1, n);
        poison(e, p + tot - e);
    }
    return h + 1;
}
void *sim_malloc(size_t n) { return heap_new(n, 0); }
void *sim_calloc(size_t n, size_t m)
{
    size_t t;
    if (__builtin_mul_overflow(n, m, &t)) {
        errno = ENOMEM;
        return NULL;
    }
    return heap_new(t, 1);
}
void sim_free(void *p)
{
    if (!p)
        return;
    hdr_t *h = (hdr_t *) p - 1;
    unpoison(h, sizeof *h);
    if ((u64) p < ARENA_BASE || (u64) p >= ARENA_BASE + ARENA_SIZE + (1ULL << 31) || h->magic != LIVE) {
        S->badfree++;
        finish(5, 6, h && (u64) p >= ARENA_BASE && (u64) p < ARENA_BASE + ARENA_SIZE && h->magic == DEAD ? "double free" : "invalid free");
    }
    unpoison((char *) p + h->size, CANARY);
    if (!canary_ok(h))
        S->canary++;
    h->magic = DEAD;
    live_bytes -= h->size;
    /* what is freed turns to garbage (large blocks: their first part) */
    fill(p, h->size < 8192 ? h->size : 8192, seed ^ 0x77);
    poison(h, sizeof *h + h->size + CANARY);
    S->frees++;
}
void *sim_realloc(void *p, size_t n)
{
    if (!p)
        return sim_malloc(n);
    if (!n) {
        sim_free(p);
        return NULL;
    }
    void *q = sim_malloc(n);
    if (!q)
        return NULL;
    size_t o = ((hdr_t *) p - 1)->size;
    memcpy(q, p, o < n ? o : n);
    sim_free(p);
    return q;
}
char *sim_strdup(const char *s)
{
    size_t n = strlen(s) + 1;
    char *p = sim_malloc(n);
    if (p)
        memcpy(p, s, n);
    return p;
}
static void heap_audit(void)
{
    for (size_t i = 0; i < nblocks; i++) {
        unpoison(blocks[i], sizeof(hdr_t));
        unpoison((char *) (blocks[i] + 1) + blocks[i]->size, CANARY);
        if (blocks[i]->magic == LIVE) {
            S->leaked++;
            if (!canary_ok(blocks[i]))
                S->canary++;
        }
    }
}
static void on_signal(int sig)
{
    in_unit = 0;
    heap_audit();
    finish(2, sig, sig == SIGSEGV || sig == SIGBUS ? "invalid memory access" : "arithmetic");
}

/* ---- file system ---- */
enum { SY_OPEN, SY_READ, SY_WRITE, SY_CLOSE, SY_REMOVE, SY_RENAME };
static const char *sysname[] = {"open", "read", "write", "close", "remove", "rename"};
typedef struct {
    int used, file, append, rd, wr, special;
    u64 off;
} handle_t;
static handle_t H[MAXOPEN];

static void norm(const char *p, char *o)
{
    char t[4096];
    snprintf(t, sizeof t, "%.4095s", p);
    char *parts[64];
    int n = 0;
    int abs = t[0] == '/';
    char *save = NULL;
    for (char *c = strtok_r(t, "/", &save); c; c = strtok_r(NULL, "/", &save)) {
        if (!strcmp(c, "."))
            continue;
        if (!strcmp(c, "..")) {
            if (n)
                n--;
            continue;
        }
        if (n < 64)
            parts[n++] = c;
    }
    o[0] = 0;
    if (abs)
        strcat(o, "/");
    for (int i = 0; i < n; i++) {
        if (i)
            strcat(o, "/");
        strncat(o, parts[i], PATHLEN - strlen(o) - 2);
    }
}
static int find(const char *p)
{
    for (int i = 0; i < MAXFILES; i++)
        if (S->files[i].used && !strcmp(S->files[i].path, p))
            return i;
    return -1;
}
static int newfile(const char *p)
{
    for (int i = 0; i < MAXFILES; i++)
        if (!S->files[i].used) {
            file_t *f = &S->files[i];
            memset(f, 0, sizeof *f);
            f->used = 1;
            snprintf(f->path, PATHLEN, "%.255s", p);
            f->data = filemem + (size_t) i * FILECAP;
            return i;
        }
    return -1;
}
/* returns fault applying to this call or NULL */
static fault_t *sysfault(int sy)
{
    S->events++;
    u64 nth = ++S->nsys[sy];
    for (int i = 0; i < S->nf; i++)
        if (!strcmp(S->f[i].name, sysname[sy]) && (S->f[i].nth == (long) nth || S->f[i].nth == 0)) {
            if (!strcmp(S->f[i].kind, "kill")) {
                S->f[i].hits++;
                finish(3, 9, "killed before system call");
            }
            return &S->f[i];
        }
    return NULL;
}
static int iserr(fault_t *f) { return f && !strcmp(f->kind, "err"); }
static void after(fault_t *f)
{
    if (f && !strcmp(f->kind, "killafter")) {
        f->hits++;
        finish(3, 9, "killed after system call");
    }
}

int sim_open(const char *path, int flags, ...)
{
    char p[PATHLEN * 2];
    norm(path, p);
    fault_t *f = sysfault(SY_OPEN);
    int wr = (flags & O_ACCMODE) != O_RDONLY;
    if (iserr(f)) {
        f->hits++;
        hist("open %s %o -> -%ld FAULT", p, flags, f->arg);
        errno = f->arg;
        return -1;
    }
    int e = 0, i = find(p);
    char *sl = strrchr(p, '/');
    if (!path[0])
        e = ENOENT;
    else if (strlen(path) > 4095)
        e = ENAMETOOLONG;
    else if (i < 0) {
        if (!(flags & O_CREAT))
            e = ENOENT;
        else if (sl && sl != p) {
            *sl = 0;
            int d = find(p);
            *sl = '/';
            if (d < 0 || !S->files[d].kind)
                e = ENOENT;
        }
    } else {
        if (S->files[i].kind && (wr || (flags & O_CREAT)))
            e = EISDIR;
        else if (wr && S->files[i].perm == 1)
            e = EACCES;
        else if (!wr && S->files[i].perm == 2)
            e = EACCES;
        else if ((flags & (O_CREAT | O_EXCL)) == (O_CREAT | O_EXCL))
            e = EEXIST;
    }
    if (!e && i < 0) {
        i = newfile(p);
        if (i < 0)
            e = ENOSPC;
    }
    int h = -1;
    if (!e) {
        /* the lowest free number, as POSIX wants it */
        for (h = 0; h < MAXOPEN - 1 && (H[h].used || (h < 3 && !(stdclosed >> h & 1))); h++)
            ;
        if (H[h].used)
            e = EMFILE;
    }
    if (e) {
        hist("open %s %o -> -%d", p, flags, e);
        errno = e;
        return -1;
    }
    if ((flags & O_TRUNC) && wr)
        S->files[i].len = 0;
    memset(&H[h], 0, sizeof H[h]);
    H[h].used = 1;
    H[h].file = i;
    H[h].wr = wr;
    H[h].rd = (flags & O_ACCMODE) != O_WRONLY;
    H[h].append = !!(flags & O_APPEND);
    hist("open %s %o -> %d", p, flags, h);
    after(f);
    return h;
}
ssize_t sim_read(int fd, void *b, size_t n)
{
    fault_t *f = sysfault(SY_READ);
    ssize_t r;
    if (iserr(f)) {
        f->hits++;
        hist("read %d -> -%ld FAULT", fd, f->arg);
        errno = f->arg;
        return -1;
    }
    if (fd < 0 || fd >= MAXOPEN || !H[fd].used || !H[fd].rd) {
        errno = EBADF;
        r = -1;
    } else if (S->files[H[fd].file].kind) {
        errno = EISDIR;
        r = -1;
    } else {
        file_t *fl = &S->files[H[fd].file];
        u64 k = H[fd].off < fl->len ? fl->len - H[fd].off : 0;
        if (k > n)
            k = n;
        if (f && !strcmp(f->kind, "short") && k > (u64) f->arg) {
            k = f->arg;
            f->hits++;
        } else if (read_chunk > 0 && k > (u64) read_chunk) {
            k = read_chunk;
            S->nsys[9]++;
        } else if (read_chunk < 0 && k > 1) {
            k = 1 + sm(&rng) % k;
            S->nsys[9]++;
        }
        memcpy(b, fl->data + H[fd].off, k);
        H[fd].off += k;
        r = k;
    }
    hist("read %d -> %zd", fd, r);
    after(f);
    return r;
}
ssize_t sim_write(int fd, const void *b, size_t n)
{
    fault_t *f = sysfault(SY_WRITE);
    ssize_t r = -1;
    if (iserr(f)) {
        f->hits++;
        hist("write %d %zu -> -%ld FAULT", fd, n, f->arg);
        errno = f->arg;
        return -1;
    }
    if (f && !strcmp(f->kind, "short") && n > (size_t) f->arg) {
        n = f->arg;
        f->hits++;
    } else if (write_chunk < 0 && n > 1) {
        n = 1 + sm(&rng) % n;
        S->nsys[10]++;
    } else if (write_chunk > 0 && n > (size_t) write_chunk) {
        n = write_chunk;
        S->nsys[10]++;
    }
    int isstd = fd >= 0 && fd < 3 && !(stdclosed >> fd & 1);
    if (fd == 1 && isstd && S->outlen + n > stdout_cap) {
        n = stdout_cap > S->outlen ? stdout_cap - S->outlen : 0;
        S->nsys[12]++;
        if (n) {
            memcpy(S->out + S->outlen, b, n);
            S->outlen += n;
            r = n;
        } else
            errno = stdout_err;
    } else if (fd == 1 && isstd) {
        if (S->outlen + n <= FILECAP) {
            memcpy(S->out + S->outlen, b, n);
            S->outlen += n;
        } else
            S->overflow = 1;
        r = n;
    } else if (fd == 2 && isstd) {
        if (S->errlen + n <= sizeof S->err) {
            memcpy(S->err + S->errlen, b, n);
            S->errlen += n;
        }
        r = n;
    } else if (fd < 0 || fd >= MAXOPEN || !H[fd].used || !H[fd].wr)
        errno = EBADF;
    else {
        file_t *fl = &S->files[H[fd].file];
        if (H[fd].append)
            H[fd].off = fl->len;
        u64 end = H[fd].off + n;
        u64 grow = end > fl->len ? end - fl->len : 0;
        u64 room = disk_cap > S->disk_used ? disk_cap - S->disk_used : 0;
        if (grow > room) {
            u64 cut = grow - room;
            n = cut >= n ? 0 : n - cut;
            grow = room;
            S->nsys[11]++;
            end = H[fd].off + n;
        }
        if (end > FILECAP) {
            S->overflow = 1;
            n = 0;
        }
        if (!n) {
            errno = ENOSPC;
            r = -1;
        } else {
            if (H[fd].off > fl->len)
                memset(fl->data + fl->len, 0, H[fd].off - fl->len);
            memcpy(fl->data + H[fd].off, b, n);
            if (end > fl->len)
                fl->len = end;
            H[fd].off = end;
            S->disk_used += grow;
            r = n;
        }
    }
    hist("write %d -> %zd", fd, r);
    after(f);
    return r;
}
int sim_close(int fd)
{
    fault_t *f = sysfault(SY_CLOSE);
    int r = 0;
    if (fd < 0 || fd >= MAXOPEN || !H[fd].used) {
        errno = EBADF;
        r = -1;
    } else
        H[fd].used = 0;
    if (iserr(f)) {
        f->hits++;
        errno = f->arg;
        r = -1;
    }
    hist("close %d -> %d", fd, r);
    after(f);
    return r;
}
int sim_creat(const char *path, mode_t m)
{
    return sim_open(path, O_WRONLY | O_CREAT | O_TRUNC, m);
}
int sim_remove(const char *path)
{
    char p[PATHLEN * 2];
    norm(path, p);
    fault_t *f = sysfault(SY_REMOVE);
    int i = find(p), r = 0;
    if (iserr(f)) {
        f->hits++;
        errno = f->arg;
        r = -1;
    } else if (i < 0) {
        errno = ENOENT;
        r = -1;
    } else
        S->files[i].used = 0;
    hist("remove %s -> %d", p, r);
    after(f);
    return r;
}
int sim_rename(const char *a, const char *b)
{
    char p[PATHLEN * 2], q[PATHLEN * 2];
    norm(a, p);
    norm(b, q);
    fault_t *f = sysfault(SY_RENAME);
    int i = find(p), r = 0;
    if (iserr(f)) {
        f->hits++;
        errno = f->arg;
        r = -1;
    } else if (i < 0) {
        errno = ENOENT;
        r = -1;
    } else {
        int j = find(q);
        if (j >= 0 && j != i)
            S->files[j].used = 0;
        snprintf(S->files[i].path, PATHLEN, "%.255s", q);
    }
    hist("rename %s %s -> %d", p, q, r);
    after(f);
    return r;
}
int sim_access(const char *path, int m)
{
    char p[PATHLEN * 2];
    norm(path, p);
    int i = find(p);
    if (i < 0) {
        errno = ENOENT;
        return -1;
    }
    if ((m & W_OK) && S->files[i].perm == 1) {
        errno = EACCES;
        return -1;
    }
    return 0;
}
int sim_chmod(const char *path, mode_t m)
{
    (void) m;
    return sim_access(path, 0);
}
static ssize_t ck_read(void *c, char *b, size_t n)
{
    int sv = in_unit;
    in_unit = 0;
    ssize_t r = sim_read((int) (intptr_t) c, b, n);
    in_unit = sv;
    return r;
}
static ssize_t ck_write(void *c, const char *b, size_t n)
{
    /* what stdio does above write(2): go on after a short write, stop at an error */
    int sv = in_unit;
    in_unit = 0;
    size_t done = 0;
    while (done < n) {
        ssize_t r = sim_write((int) (intptr_t) c, b + done, n - done);
        if (r <= 0)
            break;
        done += r;
    }
    in_unit = sv;
    return done;
}
static int ck_seek(void *c, off64_t *o, int w)
{
    handle_t *h = &H[(int) (intptr_t) c];
    if (!h->used) {
        errno = EBADF;
        return -1;
    }
    int64_t b = w == SEEK_SET ? 0 : w == SEEK_CUR ? (int64_t) h->off : (int64_t) S->files[h->file].len;
    b += *o;
    if (b < 0) {
        errno = EINVAL;
        return -1;
    }
    h->off = b;
    *o = b;
    return 0;
}
static int ck_close(void *c) { return sim_close((int) (intptr_t) c); }

FILE *sim_fopen(const char *path, const char *mode)
{
    int fl;
    int plus = strchr(mode, '+') != NULL;
    if (mode[0] == 'r')
        fl = plus ? O_RDWR : O_RDONLY;
    else if (mode[0] == 'w')
        fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
    else if (mode[0] == 'a')
        fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
    else {
        errno = EINVAL;
        return NULL;
    }
    if (!path) {
        errno = EFAULT;
        return NULL;
    }
    int fd = sim_open(path, fl, 0666);
    if (fd < 0)
        return NULL;
    cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
    FILE *f = fopencookie((void *) (intptr_t) fd, mode, io);
    static char *bufs[256];
    static int nb;
    if (f && nb < 256) {
        bufs[nb] = malloc(4096);
        setvbuf(f, bufs[nb++], _IOFBF, 4096);
    }
    return f;
}

void sim_exit(int code)
{
    fflush(NULL);
    in_unit = 0;
    for (int i = 3; i < MAXOPEN; i++)
        if (H[i].used)
            S->openhandles++;
    heap_audit();
    finish(1, code & 0xff, NULL);
    __builtin_unreachable();
}
void sim__exit(int code)
{
    in_unit = 0;
    finish(1, code & 0xff, NULL);
    __builtin_unreachable();
}
void sim_abort(void)
{
    in_unit = 0;
    heap_audit();
    finish(2, 6, "abort");
    __builtin_unreachable();
}
time_t sim_time(time_t *t)
{
    time_t v = 1000000000 + (seed * 7919) % 100000000;
    if (t)
        *t = v;
    return v;
}
int sim_rand(void) { return sm(&rng) & 0x7fffffff; }
void sim_srand(unsigned s) { (void) s; }
char *sim_getenv(const char *n)
{
    size_t l = strlen(n);
    for (int i = 0; i < nenv; i++)
        if (!strncmp(envs[i], n, l) && envs[i][l] == '=')
            return envs[i] + l + 1;
    return NULL;
}
pid_t sim_getpid(void) { return 2 + seed % 30000; }
clock_t sim_clock(void) { return steps + seed % 1000; }
int sim_gettimeofday(struct timeval *tv, void *tz)
{
    (void) tz;
    tv->tv_sec = sim_time(NULL);
    tv->tv_usec = seed % 1000000;
    return 0;
}

/* ---- running ---- */
static __attribute__((noinline)) void dirty_stack(int kind)
{
    size_t n = 256 << 10;
    volatile char *p = alloca(n);
    u64 s = seed ^ 0x5555;
    for (size_t i = 0; i < n; i += 8) {
        u64 v;
        switch (kind) {
        case 0: v = 0; break;
        case 1: v = ~0ULL; break;
        case 4: v = (sm(&s) % 5) | (sm(&s) % 5) << 32; break;
        case 3: v = 0x4141414141414141ULL; break;
        default: v = sm(&s);
        }
        memcpy((char *) p + i, &v, 8);
    }
}
static __attribute__((noinline)) int shifted(int sh)
{
    volatile char *p = alloca(sh + 16);
    p[0] = 1;
    return unit_main(nargs, args);
}

static void child(void)
{
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    alarm(60);
    rng = seed * 0x2545F4914F6CDD1DULL + 99;
    u64 base = ARENA_BASE + (hplace == 1 ? (sm(&rng) % 65536) * 4096 : 0);
    void *a = mmap((void *) base, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (a != MAP_FAILED && residue)
        for (u64 o = 0; o < ARENA_SIZE; o += IMG) {
            u64 rot = (sm(&rng) % (IMG / 4096)) * 4096;
            if (mmap((char *) a + o, IMG - rot, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_FIXED | MAP_NORESERVE, image(residue), rot) == MAP_FAILED)
                a = MAP_FAILED;
            if (rot && mmap((char *) a + o + IMG - rot, rot, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_FIXED | MAP_NORESERVE, image(residue), 0) == MAP_FAILED)
                a = MAP_FAILED;
        }
    if (a == MAP_FAILED)
        finish(4, 2, "cannot map arena");
    arena_lo = arena_cur = a;
    arena_hi = arena_lo + ARENA_SIZE;
    next_stop = max_steps;
    if (kill_step && kill_step < next_stop)
        next_stop = kill_step;
    cookie_io_functions_t io = {NULL, ck_write, NULL, NULL};
    stdout = fopencookie((void *) 1, "w", io);
    stderr = fopencookie((void *) 2, "w", io);
    static char ob[4096], eb[16];
    setvbuf(stdout, ob, stdout_mode ? _IOLBF : _IOFBF, 4096);
    setvbuf(stderr, eb, _IONBF, 0);
    static char altstack[65536];
    stack_t ss = {.ss_sp = altstack, .ss_size = sizeof altstack};
    sigaltstack(&ss, NULL);
    struct sigaction sa = {.sa_handler = on_signal, .sa_flags = SA_ONSTACK};
    int sigs[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL};
    for (int i = 0; i < 4; i++)
        sigaction(sigs[i], &sa, NULL);
    dirty_stack(stack_res);
    steps = 0;
    in_unit = 1;
    int r = shifted(stack_shift);
    sim_exit(r);
}

static char *line(void)
{
    static char b[4096];
    if (!fgets(b, sizeof b, stdin))
        return NULL;
    size_t n = strlen(b);
    if (n && b[n - 1] == '\n')
        b[n - 1] = 0;
    return b;
}
static void rd(char *p, size_t n)
{
    if (n && fread(p, 1, n, stdin) != n) {
        fprintf(stderr, "short input\n");
        exit(3);
    }
}
static void blk(const char *tag, const char *name, const char *d, u64 n)
{
    printf("%s %zu %llu\n", tag, strlen(name), (unsigned long long) n);
    fwrite(name, 1, strlen(name), stdout);
    fwrite(d, 1, n, stdout);
    putchar('\n');
}
static int cmpf(const void *a, const void *b)
{
    return strcmp(S->files[*(const int *) a].path, S->files[*(const int *) b].path);
}

int main(int argc, char **argv)
{
    int pers = personality(0xffffffff);
    if (pers >= 0 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_NORANDOM")) {
        setenv("SIM_NORANDOM", "1", 1);
        if (personality(pers | ADDR_NO_RANDOMIZE) >= 0)
            execv("/proc/self/exe", argv);
    }
    (void) argc;
    S = mmap(NULL, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    filemem = mmap(NULL, (size_t) MAXFILES * FILECAP, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (S == MAP_FAILED || filemem == MAP_FAILED)
        return 3;
    for (;;) {
        int go = 0;
        memset(S, 0, offsetof(shared_t, out));
        S->trace = 1469598103934665603ULL;
        seed = 1; residue = 2; hplace = 1; alloc_fail = 0; alloc_fail_sticky = 0; alloc_limit = ~0ULL >> 1;
        max_steps = 2000000000ULL; kill_step = 0; read_chunk = 0; write_chunk = 0; disk_cap = ~0ULL; want_hist = 0;
        stdout_cap = ~0ULL >> 1; stdout_err = EIO;
        stack_res = 2; stack_shift = 0; stdout_mode = 0; stdclosed = 0; nodump = 0;
        for (int i = 0; i < nargs; i++) free(args[i]);
        for (int i = 0; i < nenv; i++) free(envs[i]);
        nargs = nenv = 0;
        char *l;
        while ((l = line())) {
            char k[32] = "", a1[64] = "";
            char a2[64] = "", a3[64] = "", a4[64] = "";
            int c = sscanf(l, "%31s %63s %63s %63s %63s", k, a1, a2, a3, a4);
            if (c < 1)
                continue;
            u64 v = strtoull(a1, NULL, 0);
            if (!strcmp(k, "run")) { go = 1; break; }
            else if (!strcmp(k, "arg") || !strcmp(k, "env")) {
                char *b = calloc(1, v + 1);
                rd(b, v);
                getchar();
                if (k[0] == 'a') { if (nargs < 60) args[nargs++] = b; }
                else if (nenv < 30) envs[nenv++] = b;
            } else if (!strcmp(k, "file")) {
                size_t pl = strtoull(a2, NULL, 0), dl = strtoull(a3, NULL, 0);
                char p[PATHLEN * 2] = "";
                rd(p, pl);
                int i = newfile(p);
                if (i < 0 || dl > FILECAP) { fprintf(stderr, "file store full\n"); return 3; }
                rd(S->files[i].data, dl);
                S->files[i].len = dl;
                S->files[i].kind = !strcmp(a1, "dir");
                S->files[i].perm = !strcmp(a1, "ro") ? 1 : !strcmp(a1, "noread") ? 2 : 0;
                getchar();
            } else if (!strcmp(k, "seed")) seed = v;
            else if (!strcmp(k, "residue")) residue = v;
            else if (!strcmp(k, "hplace")) hplace = v;
            else if (!strcmp(k, "allocfail")) { alloc_fail = v; alloc_fail_sticky = !strcmp(a2, "sticky"); }
            else if (!strcmp(k, "alloclimit")) alloc_limit = v;
            else if (!strcmp(k, "maxsteps")) max_steps = v;
            else if (!strcmp(k, "kill")) kill_step = v;
            else if (!strcmp(k, "readchunk")) read_chunk = atoi(a1);
            else if (!strcmp(k, "writechunk")) write_chunk = atoi(a1);
            else if (!strcmp(k, "diskcap")) disk_cap = v;
            else if (!strcmp(k, "hist")) want_hist = v;
            else if (!strcmp(k, "stackres")) stack_res = v;
            else if (!strcmp(k, "stackshift")) stack_shift = v;
            else if (!strcmp(k, "stdoutmode")) stdout_mode = v;
            else if (!strcmp(k, "stdclosed")) stdclosed = v;
            else if (!strcmp(k, "stdoutcap")) { stdout_cap = v; stdout_err = a2[0] ? atoi(a2) : EIO; }
            else if (!strcmp(k, "nodump")) nodump = 1;
            else if (!strcmp(k, "fault")) {
                if (S->nf < MAXFAULT) {
                    fault_t *f = &S->f[S->nf++];
                    snprintf(f->name, sizeof f->name, "%s", a1);
                    f->nth = atol(a2);
                    snprintf(f->kind, sizeof f->kind, "%s", a3);
                    f->arg = atol(a4);
                    f->hits = 0;
                }
            } else { fprintf(stderr, "bad scenario line: %s\n", l); return 3; }
        }
        if (!go)
            break;
        fflush(stdout);
        if (residue && image(residue) < 0)
            return 3;
        pid_t pid = fork();
        if (pid < 0)
            return 3;
        if (!pid) {
            fclose(stdin);
            child();
            _exit(99);
        }
        int ws = 0;
        waitpid(pid, &ws, 0);
        const char *st = "?";
        int code = S->code;
        if (WIFSIGNALED(ws)) {
            st = WTERMSIG(ws) == SIGALRM ? "watchdog" : "signal";
            code = WTERMSIG(ws);
        } else
            switch (S->status) {
            case 1: st = "exit"; break;
            case 2: st = "signal"; break;
            case 3: st = "killed"; break;
            case 4: st = S->code ? "simerror" : "limit"; break;
            case 5: st = "signal"; break;
            default: st = "simerror"; code = 100 + WEXITSTATUS(ws);
            }
        printf("status %s %d 0\nwhy %s\n", st, code, S->why);
        printf("steps %llu\nallocs %llu\nallocbytes %llu\ncanary %llu\nbadfree %llu\nevents %llu\noverflow %d\nopenfds %d\ndiskused %llu\nbadstore %llu\nbadload %llu\nbadpc %llu\n", (unsigned long long) S->nstep,
               (unsigned long long) S->allocs, (unsigned long long) S->bytes, (unsigned long long) S->canary, (unsigned long long) S->badfree,
               (unsigned long long) S->events, S->overflow, S->openhandles, (unsigned long long) S->disk_used, (unsigned long long) S->badstore, (unsigned long long) S->badload, (unsigned long long) S->badpc);
        for (int i = 0; i < 6; i++)
            if (S->nsys[i])
                printf("sys %s %llu\n", sysname[i], (unsigned long long) S->nsys[i]);
        for (int i = 0; i < S->nf; i++)
            if (S->f[i].hits)
                printf("inj %s:%s%ld %llu\n", S->f[i].name, S->f[i].kind, S->f[i].arg, (unsigned long long) S->f[i].hits);
        if (S->nsys[8]) printf("inj alloc:fail %llu\n", (unsigned long long) S->nsys[8]);
        if (S->nsys[9]) printf("inj read:chunked %llu\n", (unsigned long long) S->nsys[9]);
        if (S->nsys[10]) printf("inj write:short %llu\n", (unsigned long long) S->nsys[10]);
        if (S->nsys[11]) printf("inj write:diskfull %llu\n", (unsigned long long) S->nsys[11]);
        if (stdclosed) printf("inj stdio:closed 1\n");
        if (S->nsys[12]) printf("inj stdout:fail %llu\n", (unsigned long long) S->nsys[12]);
        if (S->status == 3 && !WIFSIGNALED(ws)) printf("inj kill 1\n");
        int idx[MAXFILES], n = 0;
        for (int i = 0; i < MAXFILES; i++)
            if (S->files[i].used)
                idx[n++] = i;
        qsort(idx, n, sizeof(int), cmpf);
        u64 h = S->trace;
        h = fnv(h, st, strlen(st));
        h = fnv(h, &code, sizeof code);
        h = fnv(h, S->out, S->outlen);
        h = fnv(h, S->err, S->errlen);
        if (!WIFSIGNALED(ws))
            h = fnv(h, &S->nstep, 8);
        for (int i = 0; i < n; i++) {
            h = fnv(h, S->files[idx[i]].path, strlen(S->files[idx[i]].path));
            h = fnv(h, S->files[idx[i]].data, S->files[idx[i]].len);
        }
        printf("trace %016llx\nhash %016llx\n", (unsigned long long) S->trace, (unsigned long long) h);
        blk("stdout", "", S->out, S->outlen);
        blk("stderr", "", S->err, S->errlen);
        if (want_hist)
            blk("hist", "", S->hist, S->histlen);
        if (!nodump)
            for (int i = 0; i < n; i++)
                if (!S->files[idx[i]].kind)
                    blk("file", S->files[idx[i]].path, S->files[idx[i]].data, S->files[idx[i]].len);
        printf("end\n");
        fflush(stdout);
    }
    return 0;
}
