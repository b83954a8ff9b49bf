/* Observation shim linked with the library under test (built from /repo's
 * sources).  It changes nothing in the library: it stands between it and
 *   - the allocator (--wrap): every block ends at an inaccessible page, freed
 *     blocks become inaccessible, allocations are counted and can be made to
 *     fail;
 *   - cpuid_amd64 / cpuid_x86 (--wrap): CPU features can be hidden;
 * and runs calls so that a memory fault or endless loop is reported as such. */
#define _GNU_SOURCE
#include <pthread.h>
#include <setjmp.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <errno.h>

#include <rfxcodec_encode.h>

#define PAGE 4096UL
#define UP(_n) (((_n) + PAGE - 1) & ~(PAGE - 1))

void *__real_malloc(size_t n);
void *__real_calloc(size_t n, size_t m);
void __real_free(void *p);

/****************************************************************************/
/* guarded regions: [guard][pages][guard] */
/* place: 0 = data ends at the upper guard, 1 = data starts after the lower */
void *
shim_galloc(size_t size, int place, int fill)
{
    size_t pages = UP(size);
    char *base = mmap(NULL, pages + 2 * PAGE, PROT_NONE,
                      MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (base == MAP_FAILED)
    {
        return NULL;
    }
    if (pages > 0)
    {
        mprotect(base + PAGE, pages, PROT_READ | PROT_WRITE);
        if (fill >= 0)
        {
            memset(base + PAGE, fill, pages);
        }
    }
    return place == 0 ? base + PAGE + pages - size : base + PAGE;
}

void
shim_gfree(void *data, size_t size, int place)
{
    size_t pages = UP(size);
    char *base = place == 0 ? (char *) data + size - pages - PAGE
                            : (char *) data - PAGE;
    munmap(base, pages + 2 * PAGE);
}

int
shim_gprotect(void *data, size_t size, int place, int writable)
{
    size_t pages = UP(size);
    char *base = place == 0 ? (char *) data + size - pages : (char *) data;
    if (pages == 0)
    {
        return 0;
    }
    /* writable: 0 read only, 1 yes, 2 no access at all */
    return mprotect(base, pages, writable == 2 ? PROT_NONE : writable ? PROT_READ | PROT_WRITE : PROT_READ);
}

/* bytes of the pages that are not data still have the fill value? */
int
shim_gslack_ok(void *data, size_t size, int place, int fill)
{
    size_t pages = UP(size);
    size_t slack = pages - size;
    unsigned char *p = place == 0 ? (unsigned char *) data - slack
                                  : (unsigned char *) data + size;
    size_t i;
    for (i = 0; i < slack; i++)
    {
        if (p[i] != (unsigned char) fill)
        {
            return 0;
        }
    }
    return 1;
}

/* rows, each ending at an inaccessible page: row r's data is the `rowbytes`
 * bytes that end at base + r * 2 * PAGE + PAGE (rowbytes <= PAGE) */
void *
shim_fence(int rows)
{
    int r;
    char *base = mmap(NULL, (size_t) rows * 2 * PAGE + 2 * PAGE, PROT_NONE,
                      MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (base == MAP_FAILED)
    {
        return NULL;
    }
    base += PAGE;
    for (r = 0; r < rows; r++)
    {
        mprotect(base + (size_t) r * 2 * PAGE, PAGE, PROT_READ | PROT_WRITE);
    }
    return base;
}

void
shim_fence_free(void *base, int rows)
{
    munmap((char *) base - PAGE, (size_t) rows * 2 * PAGE + 2 * PAGE);
}

/****************************************************************************/
/* allocator */
struct blk
{
    void *p;
    size_t size;
    void *base;
    size_t maplen;
    struct blk *next;
};
static pthread_mutex_t g_lock = PTHREAD_MUTEX_INITIALIZER;
static struct blk *g_live;
static long g_allocs, g_frees, g_live_blocks, g_live_bytes, g_badfree, g_failed;
static long g_fail_at;   /* >0: that many allocations from now, one fails */
static int g_fail_all;   /* and all after it too */

void
shim_alloc_stats(long *out)
{
    pthread_mutex_lock(&g_lock);
    out[0] = g_allocs;
    out[1] = g_frees;
    out[2] = g_live_blocks;
    out[3] = g_live_bytes;
    out[4] = g_badfree;
    out[5] = g_failed;
    pthread_mutex_unlock(&g_lock);
}

void
shim_alloc_fail(long at, int all)
{
    pthread_mutex_lock(&g_lock);
    g_fail_at = at;
    g_fail_all = all;
    pthread_mutex_unlock(&g_lock);
}

/* what blocks contained when they were freed: memory that is not cleared may
 * hold it again */
#define STALE 4
static struct { size_t size; void *p; } g_stale[STALE];
static void
stale_put(const void *p, size_t size)
{
    int i;

    if (size < 64 || size > 0x100000)
    {
        return;
    }
    for (i = 0; i < STALE - 1 && g_stale[i].size != 0 && g_stale[i].size != size; i++)
    {
    }
    if (g_stale[i].size != size)
    {
        __real_free(g_stale[i].p);
        g_stale[i].p = __real_malloc(size);
        g_stale[i].size = size;
    }
    if (g_stale[i].p != NULL)
    {
        memcpy(g_stale[i].p, p, size);
    }
}

static void
stale_get(void *p, size_t size)
{
    int i;

    for (i = 0; i < STALE; i++)
    {
        if (g_stale[i].size == size && g_stale[i].p != NULL)
        {
            memcpy(p, g_stale[i].p, size);
        }
    }
}

static void *
galloc(size_t size, size_t align, int fill)
{
    size_t pages;
    char *base;
    char *p;
    struct blk *b;

    pthread_mutex_lock(&g_lock);
    if (g_fail_at > 0)
    {
        if (g_fail_at == 1)
        {
            if (!g_fail_all)
            {
                g_fail_at = 0;
            }
            g_failed++;
            pthread_mutex_unlock(&g_lock);
            errno = ENOMEM;
            return NULL;
        }
        g_fail_at--;
    }
    pages = UP(size + align + 64);
    base = mmap(NULL, pages + 2 * PAGE, PROT_NONE,
                MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    b = (struct blk *) __real_calloc(1, sizeof(*b));
    if (base == MAP_FAILED || b == NULL)
    {
        pthread_mutex_unlock(&g_lock);
        return NULL;
    }
    mprotect(base + PAGE, pages, PROT_READ | PROT_WRITE);
    /* right before the inaccessible page, or a little off it: other alignments */
    p = base + PAGE + pages - size - ((g_allocs & 1) ? ((g_allocs >> 1) & 3) * 16 : 0);
    p = (char *) ((uintptr_t) p & ~(uintptr_t) (align - 1));
    if (fill != 0)
    {
        memset(base + PAGE, fill, pages);
        if ((g_allocs & 3) != 0)
        {
            stale_get(p, size);
        }
    }
    b->p = p;
    b->size = size;
    b->base = base;
    b->maplen = pages + 2 * PAGE;
    b->next = g_live;
    g_live = b;
    g_allocs++;
    g_live_blocks++;
    g_live_bytes += size;
    pthread_mutex_unlock(&g_lock);
    return p;
}

void *
__wrap_calloc(size_t n, size_t m)
{
    return galloc(n * m, 16, 0);
}

void *
__wrap_malloc(size_t n)
{
    return galloc(n, 16, 0xA5);
}

void *
__wrap_aligned_alloc(size_t a, size_t n)
{
    return galloc(n, a < 16 ? 16 : a, 0xA5);
}

void *
__wrap_memalign(size_t a, size_t n)
{
    return galloc(n, a < 16 ? 16 : a, 0xA5);
}

int
__wrap_posix_memalign(void **out, size_t a, size_t n)
{
    void *p = galloc(n, a < 16 ? 16 : a, 0xA5);
    if (p == NULL)
    {
        return ENOMEM;
    }
    *out = p;
    return 0;
}

void
__wrap_free(void *p)
{
    struct blk **pp;
    struct blk *b;

    if (p == NULL)
    {
        return;
    }
    pthread_mutex_lock(&g_lock);
    for (pp = &g_live; *pp != NULL; pp = &(*pp)->next)
    {
        if ((*pp)->p == p)
        {
            b = *pp;
            *pp = b->next;
            g_frees++;
            g_live_blocks--;
            g_live_bytes -= b->size;
            stale_put(p, b->size);
            /* keep the range reserved and inaccessible: use after free faults */
            mmap(b->base, b->maplen, PROT_NONE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
            if (b->maplen > 65536 || (g_frees & 7) != 0)
            {
                munmap(b->base, b->maplen);
            }
            __real_free(b);
            pthread_mutex_unlock(&g_lock);
            return;
        }
    }
    g_badfree++;
    pthread_mutex_unlock(&g_lock);
}

void *
__wrap_realloc(void *p, size_t n)
{
    struct blk *b;
    size_t old = 0;
    void *q;

    if (p == NULL)
    {
        return __wrap_malloc(n);
    }
    pthread_mutex_lock(&g_lock);
    for (b = g_live; b != NULL; b = b->next)
    {
        if (b->p == p)
        {
            old = b->size;
        }
    }
    pthread_mutex_unlock(&g_lock);
    q = __wrap_malloc(n);
    if (q != NULL)
    {
        memcpy(q, p, old < n ? old : n);
        __wrap_free(p);
    }
    return q;
}

/****************************************************************************/
/* cpuid */
static int g_cpu; /* 0 real, 1 SSE2 only, 2 nothing, 3 up to SSE4.1 */
void
shim_cpu(int cpu)
{
    g_cpu = cpu;
}

#if defined(__x86_64__)
#define REAL_CPUID __real_cpuid_amd64
#define WRAP_CPUID __wrap_cpuid_amd64
#define DWT_SSE2 rfxencode_dwt_shift_amd64_sse2
#define DWT_SSE41 rfxencode_dwt_shift_amd64_sse41
#else
#define REAL_CPUID __real_cpuid_x86
#define WRAP_CPUID __wrap_cpuid_x86
#define DWT_SSE2 rfxencode_dwt_shift_x86_sse2
#define DWT_SSE41 rfxencode_dwt_shift_x86_sse41
#endif
#ifdef SHIM_CPUID
int
REAL_CPUID(int ei, int ci, int *a, int *b, int *c, int *d) __attribute__((weak));
int
WRAP_CPUID(int ei, int ci, int *a, int *b, int *c, int *d)
{
    int rv;
    if (REAL_CPUID == NULL)
    {
        return 0;
    }
    rv = REAL_CPUID(ei, ci, a, b, c, d);
    if (g_cpu == 0)
    {
        return rv;
    }
    if (ei != 1)
    {
        *c = 0;
        return rv;
    }
    *c = g_cpu == 3 ? (1 << 0) | (1 << 19) : 0;
    *d = g_cpu == 2 ? 0 : (1 << 26);
    return rv;
}
#endif

/****************************************************************************/
/* guarded calls */
static __thread sigjmp_buf g_env;
static __thread volatile int g_armed;
static __thread void *g_fault_addr;

static void
on_fault(int sig, siginfo_t *si, void *ctx)
{
    (void) ctx;
    if (g_armed)
    {
        g_armed = 0;
        g_fault_addr = si->si_addr;
        siglongjmp(g_env, sig);
    }
    signal(sig, SIG_DFL);
    raise(sig);
}

void
shim_init(void)
{
    struct sigaction sa;
    memset(&sa, 0, sizeof(sa));
    sa.sa_sigaction = on_fault;
    sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    sigaction(SIGSEGV, &sa, NULL);
    sigaction(SIGBUS, &sa, NULL);
    sigaction(SIGFPE, &sa, NULL);
    sigaction(SIGILL, &sa, NULL);
    sigaction(SIGABRT, &sa, NULL);
    sigaction(SIGVTALRM, &sa, NULL);
}

static void
timer(int sec)
{
    struct itimerval it;
    memset(&it, 0, sizeof(it));
    it.it_value.tv_sec = sec;
    setitimer(ITIMER_VIRTUAL, &it, NULL);
}

#define GUARDED(_fault, _sec, _call) \
    do { \
        int _sig = sigsetjmp(g_env, 1); \
        if (_sig == 0) \
        { \
            g_armed = 1; \
            if (_sec) { timer(_sec); } \
            _call; \
            if (_sec) { timer(0); } \
            g_armed = 0; \
            _fault = 0; \
        } \
        else \
        { \
            _fault = _sig; \
            if (_sec) { timer(0); } \
        } \
    } while (0)

int
shim_create(int ex, int w, int h, int fmt, int flags, void **handle, int *res)
{
    volatile int fault = 0;
    GUARDED(fault, 20,
    {
        if (ex)
        {
            *res = rfxcodec_encode_create_ex(w, h, fmt, flags, handle);
        }
        else
        {
            *handle = rfxcodec_encode_create(w, h, fmt, flags);
            *res = *handle == NULL ? -1 : 0;
        }
    });
    return fault;
}

int
shim_destroy(void *handle, int *res)
{
    volatile int fault = 0;
    GUARDED(fault, 20, *res = rfxcodec_encode_destroy(handle));
    return fault;
}

int
shim_encode(int ex, int timed, void *handle, void *out, int *bytes, const void *buf,
            int w, int h, int stride, const void *regions, int nregions,
            const void *tiles, int ntiles, const void *quants, int nquants,
            int flags, int *res)
{
    volatile int fault = 0;
    GUARDED(fault, timed,
    {
        if (ex)
        {
            *res = rfxcodec_encode_ex(handle, out, bytes, buf, w, h, stride,
                                      regions, nregions, tiles, ntiles,
                                      quants, nquants, flags);
        }
        else
        {
            *res = rfxcodec_encode(handle, out, bytes, buf, w, h, stride,
                                   regions, nregions, tiles, ntiles,
                                   quants, nquants);
        }
    });
    return fault;
}

/****************************************************************************/
/* two calls at the same time under a chosen schedule (C16): the library is
 * built with -fsanitize-coverage=trace-pc, which calls the function below at
 * every branch; there a call can be stopped to let the other one run, and (by
 * stepping single instructions) anywhere in between, assembler code included */
struct sched
{
    pthread_mutex_t lock;
    pthread_cond_t cond;
    int turn;
    int done[2];
    int nstop;
    int pos;
    const long *stops; /* pairs: branch number, instructions after it */
    int late;
};
static struct sched *g_sched;
static __thread int t_me = -1;
static __thread long t_count;
static __thread long t_stop = -1;
static __thread long t_steps;
static __thread int t_stepping;
static __thread uintptr_t *t_pcs;
static __thread long t_maxpcs;

static void
next_stop(struct sched *s)
{
    if (s->pos < s->nstop)
    {
        t_stop = t_count + s->stops[2 * s->pos];
        t_steps = s->stops[2 * s->pos + 1];
        s->pos++;
    }
    else
    {
        t_stop = -1;
    }
}

/* with the lock held: wait for my turn; a call that cannot go on because the
 * stopped one holds something it needs gives up its turn after a while */
static void
wait_turn(struct sched *s)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    ts.tv_sec += 2;
    while (s->turn != t_me && !s->done[1 - t_me])
    {
        if (pthread_cond_timedwait(&s->cond, &s->lock, &ts) == ETIMEDOUT)
        {
            s->late++;
            break;
        }
    }
    s->turn = t_me;
    next_stop(s);
}

static void
hand_over(void)
{
    struct sched *s = g_sched;
    t_stop = -1;
    pthread_mutex_lock(&s->lock);
    if (!s->done[1 - t_me])
    {
        s->turn = 1 - t_me;
        pthread_cond_broadcast(&s->cond);
        wait_turn(s);
    }
    pthread_mutex_unlock(&s->lock);
}

void
__sanitizer_cov_trace_pc(void)
{
    if (t_me < 0)
    {
        return;
    }
    if (t_pcs != NULL && t_count < t_maxpcs)
    {
        t_pcs[t_count] = (uintptr_t) __builtin_return_address(0);
    }
    t_count++;
    if (t_count == t_stop)
    {
        if (t_steps > 0)
        {
            t_stepping = 1;
#if defined(__x86_64__)
            __asm__ volatile("leaq -256(%%rsp), %%rsp\n\tpushfq\n\torq $0x100, (%%rsp)\n\t"
                             "popfq\n\tleaq 256(%%rsp), %%rsp" ::: "memory", "cc");
            return;
#endif
        }
        hand_over();
    }
}

static void
on_trap(int sig, siginfo_t *si, void *ctx)
{
    ucontext_t *uc = (ucontext_t *) ctx;
    (void) sig;
    (void) si;
    if (!t_stepping)
    {
        return;
    }
    if (t_me < 0 || --t_steps <= 0)
    {
        t_stepping = 0;
        uc->uc_mcontext.gregs[REG_EFL] &= ~0x100L;
        if (t_me >= 0)
        {
            hand_over();
        }
    }
}

struct call
{
    void *handle;
    unsigned char *out;
    int cap;
    const void *buf;
    int w;
    int h;
    int stride;
    const void *regions;
    int nregions;
    const void *tiles;
    int ntiles;
    const void *quants;
    int nquants;
    int flags;
    int fresh;   /* create (fmt, cflags), encode, destroy */
    int fmt;
    int cflags;
    int ret;     /* results */
    int bytes;
    int fault;
    int me;
};

static void
one_call(struct call *c)
{
    volatile int fault = 0;
    void *h = c->handle;
    c->ret = -99;
    c->bytes = c->cap;
    t_count = 0;
    GUARDED(fault, 0,
    {
        t_me = c->me;
        if (c->fresh)
        {
            rfxcodec_encode_create_ex(c->w, c->h, c->fmt, c->cflags, &h);
        }
        c->ret = rfxcodec_encode_ex(h, (char *) c->out, &c->bytes, c->buf, c->w, c->h, c->stride,
                                    c->regions, c->nregions, c->tiles, c->ntiles,
                                    c->quants, c->nquants, c->flags);
        if (c->fresh)
        {
            rfxcodec_encode_destroy(h);
        }
    });
    t_me = -1;
    c->fault = fault;
}

/* one call alone, with the branches it passes */
long
shim_branches(struct call *c, uintptr_t *pcs, long max)
{
    t_stop = -1;
    t_pcs = pcs;
    t_maxpcs = max;
    c->me = 0;
    one_call(c);
    t_pcs = NULL;
    return t_count < max ? t_count : max;
}

static void *
race_body(void *arg)
{
    struct call *c = (struct call *) arg;
    struct sched *s = g_sched;
    pthread_mutex_lock(&s->lock);
    t_me = c->me;
    t_count = 0;
    wait_turn(s);
    pthread_mutex_unlock(&s->lock);
    one_call(c);
    pthread_mutex_lock(&s->lock);
    s->done[c->me] = 1;
    s->turn = 1 - c->me;
    pthread_cond_broadcast(&s->cond);
    pthread_mutex_unlock(&s->lock);
    return NULL;
}

/* two calls; the first runs until its first stop, then the second until the
 * next, and so on */
int
shim_race(struct call *calls, const long *stops, int nstop)
{
    struct sched s;
    pthread_t th[2];
    struct sigaction sa;
    int i;
    memset(&sa, 0, sizeof(sa));
    sa.sa_sigaction = on_trap;
    sa.sa_flags = SA_SIGINFO;
    sigaction(SIGTRAP, &sa, NULL);
    memset(&s, 0, sizeof(s));
    pthread_mutex_init(&s.lock, NULL);
    pthread_cond_init(&s.cond, NULL);
    s.nstop = nstop;
    s.stops = stops;
    g_sched = &s;
    for (i = 0; i < 2; i++)
    {
        calls[i].me = i;
        pthread_create(th + i, NULL, race_body, calls + i);
    }
    for (i = 0; i < 2; i++)
    {
        pthread_join(th[i], NULL);
    }
    pthread_cond_destroy(&s.cond);
    pthread_mutex_destroy(&s.lock);
    g_sched = NULL;
    return s.late;
}

/* count calls with the same request; call i is logged when it is near the
 * beginning or the end, when the number first + i is near a power of two, and
 * every `every` calls: i / 65536, i % 65536, ret, bytes, first 14 bytes.
 * Returns in *logged how many entries (of 18) there are. */
static int
interesting(unsigned int no)
{
    int k;
    for (k = 7; k < 32; k++)
    {
        unsigned int b = 1u << k;
        if (no + 3 >= b && no <= b + 3)
        {
            return 1;
        }
    }
    return 0;
}

int
shim_burst(int count, int every, unsigned int first, int ex, int timed, void *handle, unsigned char *out, int cap,
           const void *buf, int w, int h, int stride, const void *regions, int nregions,
           const void *tiles, int ntiles, const void *quants, int nquants,
           int flags, int *log, int maxlog, int *logged)
{
    volatile int fault = 0;
    volatile int m = 0;
    int i;
    int j;
    GUARDED(fault, timed,
    {
        for (i = 0; i < count; i++)
        {
            int n = cap;
            int r = ex ? rfxcodec_encode_ex(handle, (char *) out, &n, buf, w, h, stride, regions, nregions,
                                            tiles, ntiles, quants, nquants, flags)
                       : rfxcodec_encode(handle, (char *) out, &n, buf, w, h, stride, regions, nregions,
                                         tiles, ntiles, quants, nquants);
            if (m < maxlog && (i < 4 || i >= count - 4 || i % every == 0 || r < 0 || interesting(first + i)))
            {
                int *e = log + 18 * m;
                e[0] = i / 65536;
                e[1] = i % 65536;
                e[2] = r;
                e[3] = n;
                for (j = 0; j < 14; j++)
                {
                    e[4 + j] = j < cap ? out[j] : -1;
                }
                m++;
            }
        }
    });
    *logged = m;
    return fault;
}

void shim_digest(const unsigned char *p, long n, unsigned int *out);
#define CYCLE_MAX 16
/* Calls which take one image after the other, period of them, step bytes apart,
 * over and over.  Of each message (without the frame number at nooff) a digest
 * is made; entries (8 words: i / 65536, i % 65536, ret, bytes, digest) are made
 * for the first three rounds, every `every` calls, and for each message that
 * differs from the one a round before. */
int
shim_cycle(int count, int every, int period, int step, int nooff, int timed, void *handle, unsigned char *out, int cap,
           const char *buf, int w, int h, int stride, const void *regions, int nregions,
           const void *tiles, int ntiles, const void *quants, int nquants,
           int *log, int maxlog, int *logged)
{
    volatile int fault = 0;
    volatile int m = 0;
    unsigned int last[CYCLE_MAX][4];
    int i;
    memset(last, 0, sizeof(last));
    GUARDED(fault, timed,
    {
        for (i = 0; i < count; i++)
        {
            int k = i % period;
            unsigned int d[4];
            int n = cap;
            int r = rfxcodec_encode(handle, (char *) out, &n, buf + (long) k * step, w, h, stride, regions, nregions,
                                    tiles, ntiles, quants, nquants);
            d[0] = r;
            d[1] = n;
            d[2] = d[3] = 0;
            if (r >= 0 && n >= nooff + 4 && n <= cap)
            {
                memset(out + nooff, 0, 4);
                shim_digest(out, n, d + 2);
            }
            if (m < maxlog && (i < 3 * period || i % every == 0 || memcmp(d, last[k], sizeof(d)) != 0))
            {
                int *e = log + 8 * m;
                e[0] = i / 65536;
                e[1] = i % 65536;
                e[2] = d[0];
                e[3] = d[1];
                e[4] = d[2] & 0xffff;
                e[5] = d[2] >> 16;
                e[6] = d[3] & 0xffff;
                e[7] = d[3] >> 16;
                m++;
            }
            memcpy(last[k], d, sizeof(d));
        }
    });
    *logged = m;
    return fault;
}

/* which: 0 rlgr1, 1 rlgr3, 2 diff_rlgr1, 3 diff_rlgr3 */
int
shim_rlgr(int which, short *coefs, unsigned char *out, int size, int diff, int *res)
{
    volatile int fault = 0;
    struct rfxcodec_encode_internals in;
    rfxcodec_encode_get_internals(&in);
    GUARDED(fault, 20,
    {
        switch (which)
        {
            case 0: *res = in.rfxencode_rlgr1(coefs, out, size); break;
            case 1: *res = in.rfxencode_rlgr3(coefs, out, size); break;
            case 2: *res = in.rfxencode_diff_rlgr1(coefs, out, size, diff); break;
            case 3: *res = in.rfxencode_diff_rlgr3(coefs, out, size, diff); break;
        }
    });
    return fault;
}

/* which: 0 dwt_2d + quantization + differential, 1 sse2, 2 sse41,
 * 3 dwt_2d only, 4 quantization only, 5 differential only (size n) */
int
shim_dwt(int which, const char *q, const unsigned char *in, short *out, short *tmp, int n, int *res)
{
    volatile int fault = 0;
    struct rfxcodec_encode_internals it;
    rfxcodec_encode_get_internals(&it);
    GUARDED(fault, 20,
    {
        switch (which)
        {
            case 0:
                *res = it.rfxencode_dwt_2d(in, out, tmp);
                *res |= it.rfxencode_quantization(out, q);
                break;
            case 1:
                *res = it.DWT_SSE2 == NULL ? -2 :
                       it.DWT_SSE2(q, in, out, tmp);
                break;
            case 2:
                *res = it.DWT_SSE41 == NULL ? -2 :
                       it.DWT_SSE41(q, in, out, tmp);
                break;
            case 3: *res = it.rfxencode_dwt_2d(in, out, tmp); break;
            case 4: *res = it.rfxencode_quantization(out, q); break;
            case 5: *res = it.rfxencode_differential(out, n); break;
        }
    });
    return fault;
}

/* FNV-1a, two independent 32-bit lanes */
void
shim_digest(const unsigned char *p, long n, unsigned int *out)
{
    unsigned int a = 2166136261u;
    unsigned int b = 84696351u;
    long i;
    for (i = 0; i < n; i++)
    {
        a = (a ^ p[i]) * 16777619u;
        b = (b ^ p[i]) * 709607u + (b >> 15) + 1;
    }
    out[0] = a;
    out[1] = b;
}
