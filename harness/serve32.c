/* The 32-bit build of the library with the shim, driven over pipes: the other
 * side names a function and its arguments, and reads and writes this process's
 * memory.  Commands (32-bit words): 'C' function argc args -> result;
 * 'W' address n bytes -> ; 'R' address n -> bytes; */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

void *shim_galloc(size_t, int, int);
void shim_gfree(void *, size_t, int);
int shim_gprotect(void *, size_t, int, int);
int shim_gslack_ok(void *, size_t, int, int);
void *shim_fence(int);
void shim_fence_free(void *, int);
void shim_alloc_stats(long *);
void shim_alloc_fail(long, int);
void shim_cpu(int);
void shim_init(void);
int shim_create();
int shim_destroy();
int shim_encode();
int shim_burst();
int shim_rlgr();
int shim_dwt();
int shim_cycle();
static char g_scratch[1 << 20] __attribute__((aligned(64)));
static void *
scratch(void)
{
    return g_scratch;
}

typedef int (*fn)();
static const fn g_fn[] =
{
    (fn) shim_galloc, (fn) shim_gfree, (fn) shim_gprotect, (fn) shim_gslack_ok,
    (fn) shim_fence, (fn) shim_fence_free, (fn) shim_alloc_stats, (fn) shim_alloc_fail,
    (fn) shim_cpu, (fn) shim_init, shim_create, shim_destroy, shim_encode, shim_burst,
    shim_rlgr, shim_dwt, (fn) scratch, shim_cycle
};

static int g_in;
static int g_out;
static void
get(void *p, size_t n)
{
    char *c = p;
    while (n > 0)
    {
        ssize_t r = read(g_in, c, n);
        if (r <= 0)
        {
            _exit(0);
        }
        c += r;
        n -= r;
    }
}

static void
put(const void *p, size_t n)
{
    const char *c = p;
    while (n > 0)
    {
        ssize_t r = write(g_out, c, n);
        if (r <= 0)
        {
            _exit(0);
        }
        c += r;
        n -= r;
    }
}

int
main(void)
{
    uint32_t h[3];
    int a[24];
    int r;

    g_in = dup(0);
    g_out = dup(1);
    if (freopen("/dev/null", "w", stdout) == NULL)
    {
        return 1;
    }
    for (;;)
    {
        get(h, 12);
        if (h[0] == 'C')
        {
            memset(a, 0, sizeof(a));
            get(a, 4 * h[2]);
            r = g_fn[h[1]](a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11],
                           a[12], a[13], a[14], a[15], a[16], a[17], a[18], a[19], a[20], a[21]);
            put(&r, 4);
        }
        else if (h[0] == 'W')
        {
            get((void *) (uintptr_t) h[1], h[2]);
        }
        else
        {
            put((void *) (uintptr_t) h[1], h[2]);
        }
    }
}
