/*
 * simalloc: numpy's memory as a seam. Every array's data is obtained through the handler
 * below, which counts the requests of an armed step and refuses the chosen ones, as an
 * exhausted machine does. It is linked into the same shared object as simdisk.
 */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

typedef struct {
    void *ctx;
    void *(*malloc)(void *ctx, size_t size);
    void *(*calloc)(void *ctx, size_t nelem, size_t elsize);
    void *(*realloc)(void *ctx, void *ptr, size_t new_size);
    void (*free)(void *ctx, void *ptr, size_t size);
} allocator_t;

typedef struct {
    char name[127];
    uint8_t version;
    allocator_t allocator;
} handler_t;

#define MAXPLAN 16
static struct { int64_t at, count, min, seen, fired; } plan[MAXPLAN];
static int nplan, armed;
static int64_t total;

static int refused(size_t size)
{
    if (!armed) return 0;
    int no = 0;
    total++;
    for (int i = 0; i < nplan; i++) {
        if ((int64_t)size < plan[i].min) continue;
        int64_t k = plan[i].seen++;
        if (k >= plan[i].at && (plan[i].count < 0 || k < plan[i].at + plan[i].count)) { plan[i].fired++; no = 1; }
    }
    return no;
}

static void *a_malloc(void *c, size_t n) { (void)c; return refused(n) ? NULL : malloc(n ? n : 1); }
static void *a_calloc(void *c, size_t n, size_t m) { (void)c; return refused(n * m) ? NULL : calloc(n ? n : 1, m ? m : 1); }
static void *a_realloc(void *c, void *p, size_t n) { (void)c; return refused(n) ? NULL : realloc(p, n ? n : 1); }
static void a_free(void *c, void *p, size_t n) { (void)c; (void)n; free(p); }

static handler_t handler = {"swsim", 1, {NULL, a_malloc, a_calloc, a_realloc, a_free}};

void *sm_handler(void) { return &handler; }
void sm_clear(void) { nplan = 0; armed = 0; }
void sm_arm(void) { total = 0; armed = 1; }
int sm_add(int64_t at, int64_t count, int64_t min)
{
    if (nplan == MAXPLAN) return -1;
    plan[nplan].at = at; plan[nplan].count = count; plan[nplan].min = min; plan[nplan].seen = plan[nplan].fired = 0;
    return nplan++;
}
int64_t sm_fired(int i) { return plan[i].fired; }
int64_t sm_total(void) { return total; }
