/* Guarded allocator for the arrays of numpy (through its allocation handler)
 * and the tensors of torch (posix_memalign, when preloaded).
 *
 * Every block lies in its own pages between two inaccessible ones, flush with
 * the upper one (placement 0) or the lower one (placement 1).  Fresh memory is
 * filled with a chosen byte, slack bytes with a canary checked when the block
 * is released; released blocks become inaccessible and are never reused.
 *
 *   gcc -O2 -shared -fPIC -o libguard.so guard.c
 */
#define _GNU_SOURCE
#include <errno.h>
#include <pthread.h>
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <sys/mman.h>

#define PAGE 4096UL
#define ARENA (1UL << 42)
#define CANARY 0xA5
#define MAGIC 0x67756172646d656dULL

extern void *__libc_malloc(size_t);
extern void __libc_free(void *);
extern void *__libc_memalign(size_t, size_t);

typedef struct { uint64_t magic; size_t size, span, pages; unsigned char fill; } hdr_t;

static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;
static char *arena, *next_, *limit;
static int enabled, placement, failed;
static unsigned char fill = 0xFF;
static unsigned long n_alloc, n_free, n_bad, n_fallback, n_bytes, n_memalign, n_bad_free;

static int inside(const void *p) { return arena && (char *)p >= arena && (char *)p < limit; }

static int reserve(void) {
    if (arena) return 1;
    if (failed) return 0;
    void *p = mmap(NULL, ARENA, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { failed = 1; return 0; }
    arena = next_ = p;
    limit = arena + ARENA;
    return 1;
}

static void *take(size_t size, size_t align, int byte) {
    size_t want = size ? size : 1;
    size_t span = (want + align - 1) / align * align;
    size_t pages = (span + PAGE - 1) / PAGE;
    size_t total = (pages + 3) * PAGE; /* header, guard, data, guard */
    char *base = NULL;
    pthread_mutex_lock(&lock);
    if (reserve() && next_ + total <= limit) { base = next_; next_ += total; }
    if (base) { n_alloc++; n_bytes += size; } else n_fallback++;
    pthread_mutex_unlock(&lock);
    if (!base) return __libc_memalign(align < 16 ? 16 : align, want);
    char *data = base + 2 * PAGE;
    if (mprotect(base, PAGE, PROT_READ | PROT_WRITE) || mprotect(data, pages * PAGE, PROT_READ | PROT_WRITE)) {
        __atomic_fetch_add(&n_fallback, 1, __ATOMIC_RELAXED);
        return __libc_memalign(align < 16 ? 16 : align, want);
    }
    hdr_t *h = (hdr_t *)base;
    h->magic = MAGIC; h->size = want; h->span = span; h->pages = pages; h->fill = byte;
    char *p = placement ? data : data + pages * PAGE - span;
    memset(data, CANARY, pages * PAGE);
    memset(p, byte, want);
    return p;
}

static hdr_t *header(void *p) {
    char *base = (char *)((uintptr_t)p & ~(PAGE - 1)) - 2 * PAGE;
    return (hdr_t *)base;
}

static int canaries_ok(hdr_t *h, char *p) {
    unsigned char *d = (unsigned char *)h + 2 * PAGE, *e = d + h->pages * PAGE;
    for (unsigned char *q = d; q < (unsigned char *)p; q++) if (*q != CANARY) return 0;
    for (unsigned char *q = (unsigned char *)p + h->size; q < e; q++) if (*q != CANARY) return 0;
    return 1;
}

static void give(void *p) {
    hdr_t *h = header(p);
    if (h->magic != MAGIC) { __atomic_fetch_add(&n_bad_free, 1, __ATOMIC_RELAXED); return; }
    if (!canaries_ok(h, p)) __atomic_fetch_add(&n_bad, 1, __ATOMIC_RELAXED);
    size_t pages = h->pages;
    char *base = (char *)h;
    madvise(base, (pages + 2) * PAGE, MADV_DONTNEED);
    mprotect(base, (pages + 2) * PAGE, PROT_NONE);
    __atomic_fetch_add(&n_free, 1, __ATOMIC_RELAXED);
}

/* ---- numpy handler ---------------------------------------------------- */
void *guard_malloc(void *ctx, size_t n) { (void)ctx; return take(n, 8, fill); }
void *guard_calloc(void *ctx, size_t n, size_t s) {
    (void)ctx;
    size_t t;
    if (__builtin_mul_overflow(n, s, &t)) return NULL;
    void *p = take(t, 8, 0);
    if (p) memset(p, 0, t);
    return p;
}
void guard_free(void *ctx, void *p, size_t n) {
    (void)ctx; (void)n;
    if (!p) return;
    if (inside(p)) give(p); else __libc_free(p);
}
void *guard_realloc(void *ctx, void *p, size_t n) {
    (void)ctx;
    void *q = take(n, 8, fill);
    if (p && q) {
        size_t old = inside(p) ? header(p)->size : n;
        memcpy(q, p, old < n ? old : n);
        guard_free(NULL, p, 0);
    }
    return q;
}

/* ---- torch, when preloaded -------------------------------------------- */
int posix_memalign(void **out, size_t align, size_t size) {
    if (enabled && align == 64 && size > 0) {
        void *p = take(size, 64, fill);
        __atomic_fetch_add(&n_memalign, 1, __ATOMIC_RELAXED);
        if (!p) return ENOMEM;
        *out = p;
        return 0;
    }
    void *p = __libc_memalign(align, size);
    if (!p) return ENOMEM;
    *out = p;
    return 0;
}
void free(void *p) {
    if (p && inside(p)) { give(p); return; }
    __libc_free(p);
}

/* ---- control ----------------------------------------------------------- */
void guard_set(int on, int place, int byte) { enabled = on; placement = place; fill = (unsigned char)byte; }
unsigned long guard_stat(int k) {
    unsigned long v[] = {n_alloc, n_free, n_bad, n_fallback, n_bytes, n_memalign, n_bad_free};
    return k >= 0 && k < 7 ? v[k] : 0;
}
int guard_owns(void *p) { return inside(p); }
