/* Replays suspected violations on the real code: built only after a proof obligation failed.  Every mode drives the
 * allocator of the current tree through its entry points and compares it with a reference model; the first
 * disagreement is printed as the failing history.   driver MODE SEED ROUNDS */
#include "src/iso_alloc.c"
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

static uint64_t S0_ = 1;
static uint64_t rnd(void) { S0_ ^= S0_ << 13; S0_ ^= S0_ >> 7; S0_ ^= S0_ << 17; return S0_; }
static uint64_t below(uint64_t n) { return n ? (rnd() >> 11) % n : 0; }

static char hist[64][160];
static unsigned nh;
static void H(const char *f, ...) { va_list a; va_start(a, f); vsnprintf(hist[nh++ % 64], 160, f, a); va_end(a); }
static void dump(void) { for(unsigned i = nh > 40 ? nh - 40 : 0; i < nh; i++) dprintf(1, "  %s\n", hist[i % 64]); }
static void fail(const char *f, ...) {
    char b[400]; va_list a; va_start(a, f); vsnprintf(b, 400, f, a); va_end(a);
    dprintf(1, "FAIL %s\nlast operations:\n", b); dump(); _exit(1);
}
#define CHECK(c, ...) do { if(!(c)) fail(__VA_ARGS__); } while(0)

/* ---- locks */
static pthread_mutex_t *held[16];
static int nheld;
int __real_pthread_mutex_lock(pthread_mutex_t *m);
int __real_pthread_mutex_unlock(pthread_mutex_t *m);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
    for(int i = 0; i < nheld; i++) CHECK(held[i] != m, "a lock is taken that is already held (self-deadlock)");
    held[nheld++] = m;
    return __real_pthread_mutex_lock(m);
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
    int f = 0;
    for(int i = 0; i < nheld; i++) if(held[i] == m) { held[i] = held[--nheld]; f = 1; break; }
    CHECK(f, "a lock is released that is not held");
    return __real_pthread_mutex_unlock(m);
}
static void nolocks(const char *w) { CHECK(nheld == 0, "%s returned with %d locks held", w, nheld); }

/* ---- system calls that can be made to fail */
static int mapfail, entfail; static uint64_t entval; static int entuse;
void *__real_mmap(void *, size_t, int, int, int, off_t);
void *__wrap_mmap(void *a, size_t n, int p, int f, int d, off_t o) { if(mapfail && --mapfail == 0) { errno = ENOMEM; return MAP_FAILED; } return __real_mmap(a, n, p, f, d, o); }
ssize_t __real_getrandom(void *, size_t, unsigned);
ssize_t __wrap_getrandom(void *b, size_t n, unsigned f) {
    if(entfail == 1) { errno = EAGAIN; return -1; }
    if(entfail == 2) return __real_getrandom(b, n / 2, f);
    if(entfail == 3) return 0;
    if(entuse) { memcpy(b, &entval, n < 8 ? n : 8); return n; }
    return __real_getrandom(b, n, f);
}

/* ---- does a call terminate the process? */
static int dies(void (*f)(void *), void *x) {
    pid_t c = fork();
    if(c == 0) {
        int d = open("/dev/null", O_WRONLY); dup2(d, 2); dup2(d, 1);
        struct rlimit r = {0, 0}; setrlimit(RLIMIT_CORE, &r);
        alarm(20);
        f(x);
        _exit(7);
    }
    int st = 0; waitpid(c, &st, 0);
    if(WIFSIGNALED(st) && (WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGKILL)) _exit(2); /* inconclusive */
    return WIFSIGNALED(st) ? WTERMSIG(st) : 0;
}
static int pfd[2] = {-1, -1};
static int readable(const void *p) {
    if(pfd[0] < 0) if(pipe(pfd)) _exit(3);
    char c; ssize_t r = write(pfd[1], p, 1);
    if(r == 1) { r = read(pfd[0], &c, 1); return 1; }
    return 0;
}
static int writable(void *p) {
    if(!readable(p)) return 0;
    char c = *(volatile char *)p;
    static int z = -1; if(z < 0) z = open("/dev/zero", O_RDONLY);
    ssize_t r = read(z, p, 1);
    if(r == 1) { *(volatile char *)p = c; return 1; }
    return 0;
}
static int mapped(void *p) { unsigned char v; return mincore((void *)((uintptr_t)p & ~4095UL), 1, &v) == 0 || errno != ENOMEM; }

/* memory of the driver itself never comes from the allocator under test */
static void *arena(size_t n) { void *p = __real_mmap(NULL, (n + 4095) & ~4095UL, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if(p == MAP_FAILED) _exit(3); return p; }
static void arena_free(void *p, size_t n) { munmap(p, (n + 4095) & ~4095UL); }

/* ---- zones */
typedef iso_alloc_zone_t Z;
static uint8_t *ub(Z *z) { return (uint8_t *)UNMASK_USER_PTR(z); }
static uint64_t *bm(Z *z) { return (uint64_t *)UNMASK_BITMAP_PTR(z); }
static int pair(Z *z, uint64_t i) { return (bm(z)[i >> 5] >> ((i & 31) * 2)) & 3; }
static Z *zh(iso_alloc_zone_handle *h) { return (Z *)((uintptr_t)h ^ _root->zone_handle_mask); }
static uint64_t can(Z *z, void *p) { return (z->canary_secret ^ (uint64_t)p) & CANARY_VALIDATE_MASK; }
static Z *holder(void *p) { Z *r = NULL; for(size_t i = 0; i < _root->zones_used; i++) { uint8_t *u = ub(&_root->zones[i]); if((uint8_t *)p >= u && (uint8_t *)p < u + ZONE_USER_SIZE) { CHECK(!r, "two zones hold %p", p); r = &_root->zones[i]; } } return r; }

static void pat(void *p, size_t n, uint64_t k) { uint8_t *b = p; for(size_t i = 0; i < n; i++) b[i] = (uint8_t)(k * 31 + i * 7 + (i >> 8)) | 1; }
static int patok(void *p, size_t n, uint64_t k) { uint8_t *b = p; for(size_t i = 0; i < n; i++) if(b[i] != (uint8_t)((uint8_t)(k * 31 + i * 7 + (i >> 8)) | 1)) return 0; return 1; }

enum { NEVER, LIVE, FREED, PERM, CAN };
typedef struct { Z *z; iso_alloc_zone_handle *h; uint8_t *u; uint64_t *b; uint32_t n, cs; uint8_t *st; uint64_t *key; uint32_t live, freec; uint64_t allocs; int full; } M;
static uint64_t keys = 1;

static int zones_sane(void) {
    for(size_t i = 0; i < _root->zones_used; i++) {
        Z *z = &_root->zones[i];
#if MASK_PTRS
        CHECK(((uintptr_t)ub(z) & 4095) == 0 && (uintptr_t)ub(z) >> 47 == 0, "zone %zu: stored user pages are not the masked address", i);
        CHECK(((uintptr_t)bm(z) & 15) == 0 && (uintptr_t)bm(z) >> 47 == 0, "zone %zu: stored bitmap is not the masked address", i);
#endif
        CHECK(z->index == i, "zone %zu records index %u", i, z->index);
    }
    return 1;
}

static void freelist(Z *z) {
    static uint8_t seen[1 << 18];
    uint32_t n = z->chunk_count;
    memset(seen, 0, n);
    for(int i = z->free_bit_slots_usable; i < z->free_bit_slots_index; i++) {
        int64_t s = z->free_bit_slots[i];
        if(s == BAD_BIT_SLOT) continue;
        CHECK(s >= 0 && (s & 1) == 0 && s / 2 < n, "free list entry %d names slot %ld of a zone with %u chunks", i, (long)s, n);
        CHECK(!(pair(z, s / 2) & 1), "free list entry %d names chunk %ld which is in use", i, (long)s / 2);
        CHECK(!seen[s / 2], "free list names chunk %ld twice", (long)s / 2);
        seen[s / 2] = 1;
    }
    int64_t s = z->next_free_bit_slot;
    if(s != BAD_BIT_SLOT) {
        CHECK(s >= 0 && (s & 1) == 0 && s / 2 < n, "the pending slot is %ld of a zone with %u chunks", (long)s, n);
        CHECK(!(pair(z, s / 2) & 1), "the pending slot names chunk %ld which is in use", (long)s / 2);
        CHECK(!seen[s / 2], "the pending slot %ld is on the free list too", (long)s / 2);
    }
}

static void audit(M *m, const char *w) {
    Z *z = m->z;
    CHECK(ub(z) == m->u && bm(z) == m->b, "%s: the masked addresses of the zone changed", w);
    CHECK(z->chunk_size == m->cs && z->chunk_count == ZONE_USER_SIZE / m->cs, "%s: the geometry of the zone changed", w);
    uint32_t fr = 0;
    for(uint32_t i = 0; i < m->n; i++) {
        static const int exp[] = {0, 1, 2, 3, 3};
        int p = pair(z, i);
        CHECK(p == exp[m->st[i]], "%s: bitmap state of chunk %u is %d, expected %d", w, i, p, exp[m->st[i]]);
        fr += !(p & 1);
    }
    CHECK(z->af_count == m->live, "%s: %u chunks in use, count says %u", w, m->live, z->af_count);
    CHECK(!(z->is_full && fr), "%s: zone called full with %u free chunks", w, fr);
    freelist(z);
    m->freec = fr;
}

static void newm(M *m, size_t size) {
    memset(m, 0, sizeof *m);
    size_t used0 = _root->zones_used;
    m->h = iso_alloc_new_zone(size);
    nolocks("iso_alloc_new_zone");
    CHECK(m->h, "no zone for size %zu", size);
    m->z = zh(m->h);
    CHECK(m->z == &_root->zones[used0] && _root->zones_used == used0 + 1, "the new zone is not the next one");
    CHECK((void *)m->h != (void *)m->z || _root->zone_handle_mask == 0, "the handle is not masked");
    m->u = ub(m->z); m->b = bm(m->z); m->cs = m->z->chunk_size; m->n = m->z->chunk_count;
    /* only whole words of the bitmap are in use */
    if(m->n > m->z->bitmap_size / 8 * 32) m->n = m->z->bitmap_size / 8 * 32;
    size_t e = size < 32 ? 32 : (size + 31) / 32 * 32;
    CHECK(m->cs == e, "zone for size %zu has chunks of %u", size, m->cs);
    CHECK(m->z->chunk_count == ZONE_USER_SIZE / m->cs && (uint64_t)m->z->bitmap_size * 8 >= (uint64_t)m->n * 2 - 62, "zone of %u byte chunks has %u chunks, bitmap %u", m->cs, m->n, m->z->bitmap_size);
    m->st = arena(m->n); m->key = arena(m->n * 8);
    uint32_t c = 0;
    for(uint32_t i = 0; i < m->n; i++) {
        int p = pair(m->z, i);
        CHECK(p == 0 || p == 3, "chunk %u of a new zone has state %d", i, p);
        if(p == 3) {
            m->st[i] = CAN; c++;
            CHECK(*(uint64_t *)(m->u + (uint64_t)i * m->cs) == can(m->z, m->u + (uint64_t)i * m->cs), "canary chunk %u has no canary", i);
        }
    }
    CHECK(c <= (m->z->chunk_count >> CANARY_COUNT_DIV), "%u canary chunks of %u", c, m->n);
    CHECK(!readable(m->u - 1) && !readable(m->u + ZONE_USER_SIZE), "user pages of the new zone are not guarded");
    CHECK(writable(m->u) && writable(m->u + ZONE_USER_SIZE - 1), "user pages of the new zone are not writable");
    CHECK(!m->z->internal && !m->z->is_full, "flags of the new zone");
    H("new private zone: size %zu chunks %u", size, m->n);
    audit(m, "new zone");
}
static void delm(M *m) {
    for(uint32_t i = 0; i < m->n; i++) if(m->st[i] == LIVE) { iso_free_from_zone(m->u + (uint64_t)i * m->cs, m->h); m->st[i] = FREED; }
    arena_free(m->st, m->n); arena_free(m->key, m->n * 8);
}

static uint32_t zalloc(M *m) {
    uint8_t *p = iso_alloc_from_zone(m->h);
    nolocks("iso_alloc_from_zone");
    if(!p) { uint32_t fr = 0; for(uint32_t i = 0; i < m->n; i++) fr += m->st[i] == NEVER || m->st[i] == FREED; H("alloc -> null"); CHECK(!fr, "no memory from a zone with %u free chunks", fr); return ~0u; }
    CHECK(p >= m->u && p < m->u + ZONE_USER_SIZE, "chunk %p outside its zone", p);
    CHECK((uint64_t)(p - m->u) % m->cs == 0, "chunk %p not at a chunk boundary", p);
    uint32_t i = (p - m->u) / m->cs;
    H("alloc -> chunk %u", i);
    CHECK(i < m->n, "chunk %u of %u", i, m->n);
    CHECK(m->st[i] == NEVER || m->st[i] == FREED, "chunk %u handed out while it is %s", i, m->st[i] == LIVE ? "in use" : m->st[i] == PERM ? "permanently freed" : "a canary chunk");
    if(m->st[i] == FREED) CHECK(*(uint64_t *)p == 0, "the canary of chunk %u was not wiped", i);
    m->st[i] = LIVE; m->live++;
    m->key[i] = keys++;
    pat(p, m->cs, m->key[i]);
    return i;
}
static void zfree(M *m, uint32_t i, int perm) {
    uint8_t *p = m->u + (uint64_t)i * m->cs;
    CHECK(patok(p, m->cs, m->key[i]), "contents of live chunk %u changed", i);
    H("%s chunk %u", perm ? "free permanently" : "free", i);
    if(perm) iso_free_from_zone_permanently(p, m->h); else iso_free_from_zone(p, m->h);
    nolocks("iso_free_from_zone");
    m->st[i] = perm ? PERM : FREED; m->live--;
#if !DISABLE_CANARY
    CHECK(*(uint64_t *)p == can(m->z, p) && *(uint64_t *)(p + m->cs - 8) == can(m->z, p), "freed chunk %u does not carry its canaries", i);
#endif
    if(m->cs > 16) {
        static uint8_t ref[70000];
        pat(ref, m->cs, m->key[i]);
        if(perm || SANITIZE_CHUNKS) memset(ref, 0xde, m->cs);
        CHECK(!memcmp(ref + 8, p + 8, m->cs - 16), "contents of freed chunk %u: %s", i, perm ? "not poisoned" : "changed");
    }
    CHECK(!m->z->is_full || perm, "zone still full after chunk %u was freed", i);
}
struct zp { M *m; void *p; int how; };
static void dofree(void *x) { struct zp *q = x; if(q->how == 0) iso_free_from_zone(q->p, q->m->h); else if(q->how == 1) iso_free_from_zone_permanently(q->p, q->m->h); else if(q->how == 2) iso_free_permanently(q->p); else { iso_free(q->p); iso_flush_caches(); } }
static void doverify(void *x) { M *m = x; iso_verify_zone(m->h); }
static void doallocs(void *x) { M *m = x; for(uint32_t i = 0; i < m->n + 300; i++) if(!iso_alloc_from_zone(m->h)) break; }

static uint32_t pick(M *m, int st) { uint32_t o = below(m->n); for(uint32_t k = 0; k < m->n; k++) { uint32_t i = (o + k) % m->n; if(m->st[i] == st) return i; } return ~0u; }
static const size_t SZ[] = {65536, 32768, 16384, 8192, 4096, 2048, 1024, 40000, 20000, 5000, 1056, 3104, 65504};
static size_t rsize(void) { return below(3) ? SZ[below(sizeof SZ / sizeof *SZ)] : 512 + below(65536 - 512); }

static void mode_zone(int rounds) {
    M a, b;
    size_t s1 = rsize(), s2 = rsize();
    newm(&a, s1); newm(&b, s2);
    for(int r = 0; r < rounds; r++) {
        M *m = below(4) ? &a : &b, *o = m == &a ? &b : &a;
        int k = below(20);
        if(k == 0) { while(zalloc(m) != ~0u) if(below(200) == 0) break; }
        else if(k == 1) { uint32_t n = below(m->live + 1); while(n--) { uint32_t i = pick(m, LIVE); zfree(m, i, below(30) == 0); } }
        else if(k < 11) zalloc(m);
        else if(m->live) zfree(m, pick(m, LIVE), below(25) == 0);
        audit(m, "after the operation");
        if(below(8) == 0) { audit(o, "after an operation on the other zone"); zones_sane(); }
        if(below(30) == 0) { H("verify zone"); iso_verify_zone(m->h); nolocks("iso_verify_zone"); audit(m, "after verification"); }
    }
    for(uint32_t i = 0; i < a.n; i++) if(a.st[i] == LIVE) CHECK(patok(a.u + (uint64_t)i * a.cs, a.cs, a.key[i]), "contents of live chunk %u changed", i);
    delm(&a); delm(&b);
}

/* small chunks: allocate and free through the free list and the scans with the whole bitmap in play */
static void mode_small(int rounds) {
    M m; static const size_t s[] = {32, 64, 96, 128, 256, 512, 160};
    newm(&m, s[below(7)]);
    for(int r = 0; r < rounds * 40; r++) {
        int k = below(1000);
        if(k == 0) while(zalloc(&m) != ~0u) ;
        else if(k == 1) { uint32_t n = below(m.live + 1); while(n--) zfree(&m, pick(&m, LIVE), 0); }
        else if(k < 600) zalloc(&m);
        else if(m.live) zfree(&m, pick(&m, LIVE), below(25) == 0);
        if(below(200) == 0) audit(&m, "after the operation"); else if(below(20) == 0) freelist(m.z);
    }
    audit(&m, "at the end");
    delm(&m);
}

static void mode_badfree(int rounds) {
    M m;
    newm(&m, below(4) ? 2048 + below(60000) : 1024);
    for(int i = 0; i < 200; i++) { if(below(3)) zalloc(&m); else if(m.live) zfree(&m, pick(&m, LIVE), below(5) == 0); }
    for(int r = 0; r < rounds; r++) {
        struct zp q = {&m, 0, below(3)};
        uint32_t i; int k = below(8); const char *w = "";
        if(k == 0) { i = pick(&m, FREED); w = "a chunk that is already free"; }
        else if(k == 1) { i = pick(&m, PERM); w = "a permanently freed chunk"; }
        else if(k == 2) { i = pick(&m, CAN); w = "a canary chunk"; }
        else if(k == 3) { i = pick(&m, NEVER); w = "a chunk that was never allocated"; }
        else { i = pick(&m, LIVE); w = "an address inside a live chunk"; }
        if(i == ~0u) continue;
        q.p = m.u + (uint64_t)i * m.cs;
        if(k >= 4 && k < 6) { q.p = (uint8_t *)q.p + 8 * (1 + below(m.cs / 8 - 1)); }
        if(k == 6) { q.p = m.u + (uint64_t)m.n * m.cs + 8 * below((ZONE_USER_SIZE - (uint64_t)m.n * m.cs) / 8 + 1); w = "an address behind the last chunk"; q.how = 0; }
        if(k == 7) { q.p = below(2) ? m.u - 8 * (1 + below(1000)) : m.u + ZONE_USER_SIZE + m.cs * below(5); w = "an address outside the zone"; q.how = 0; }
        CHECK(dies(dofree, &q), "freeing %s (%p, zone at %p, chunk size %u, way %d) returned", w, q.p, m.u, m.cs, q.how);
    }
    audit(&m, "after refused frees");
    delm(&m);
}

static void mode_canary(int rounds) {
#if !DISABLE_CANARY
    M m;
    newm(&m, 2048 + below(60000));
    for(int i = 0; i < 300; i++) { if(below(2)) zalloc(&m); else if(m.live) zfree(&m, pick(&m, LIVE), 0); }
    for(int r = 0; r < rounds; r++) {
        uint32_t i = pick(&m, below(4) ? FREED : CAN);
        if(i == ~0u) continue;
        uint8_t *p = m.u + (uint64_t)i * m.cs;
        uint64_t *c = (uint64_t *)(below(2) ? p : p + m.cs - 8), o = *c;
        *c ^= 1UL << below(64);
        if(below(4) == 0) *c = rnd();
        if(*c == o) continue;
        if(m.st[i] == FREED) CHECK(dies(doallocs, &m), "every free chunk was handed out although %s canary of free chunk %u changed from %lx to %lx", c == (uint64_t *)p ? "the first" : "the last", i, o, *c);
        CHECK(dies(doverify, &m), "verification accepted the zone although a canary of chunk %u (state %d) changed", i, m.st[i]);
        for(int d = -1; d <= 1; d += 2) {
            uint32_t j = i + d;
            if(j >= m.n || m.st[j] != LIVE) continue;
            struct zp q = {&m, m.u + (uint64_t)j * m.cs, 0};
            CHECK(dies(dofree, &q), "chunk %u was freed although a canary of its neighbour %u changed", j, i);
        }
        *c = o;
        CHECK(!dies(doverify, &m) , "verification rejected a sound zone");
    }
    for(int r = 0; r < 10; r++) { uint32_t i = pick(&m, LIVE); if(i != ~0u) zfree(&m, i, 0); }
    delm(&m);
#endif
}

/* ---- the public heap */
typedef struct { uint8_t *p; size_t n, usable; uint64_t key; int big; } A_;
static A_ L[600]; static int nl; static A_ Q[64]; static int nq; static A_ PF[400]; static int npf;
static int meets(A_ *x, uint8_t *p, size_t n) { return p < x->p + x->usable && x->p < p + n; }
static int curop;
static void heapaudit(void) {
    CHECK(_root->chunk_quarantine_count <= CHUNK_QUARANTINE_SZ, "quarantine holds %zu", (size_t)_root->chunk_quarantine_count);
    CHECK(_root->chunk_quarantine_count == (size_t)nq, "quarantine holds %zu pointers, %d frees wait", (size_t)_root->chunk_quarantine_count, nq);
    for(int i = 0; i < nq; i++) CHECK(_root->chunk_quarantine[i] == (uintptr_t)Q[i].p, "quarantine entry %d is not the pointer that waits", i);
#if THREAD_SUPPORT && !USE_SPINLOCK
    CHECK(zone_cache_count <= ZONE_CACHE_SZ, "thread cache count %zu", zone_cache_count);
    for(size_t i = 0; i < zone_cache_count; i++) {
        Z *z = zone_cache[i].zone;
        CHECK(z >= _root->zones && z < _root->zones + _root->zones_used, "thread cache entry %zu names no zone", i);
        CHECK(z->internal, "thread cache entry %zu names a private zone", i);
        CHECK(zone_cache[i].chunk_size == z->chunk_size, "thread cache entry %zu records chunks of %zu, its zone has %u", i, (size_t)zone_cache[i].chunk_size, z->chunk_size);
    }
#endif
    zones_sane();
}
static void settle(A_ *x) { /* a free took effect */
    if(!x->big) { Z *z = holder(x->p); if(z) { uint64_t i = (x->p - ub(z)) / z->chunk_size; CHECK(!(pair(z, i) & 1), "chunk %p is still in use after its free took effect", x->p); } }
}
static A_ *track(uint8_t *p, size_t n, int cal) {
    size_t us = iso_chunksz(p);
    nolocks("iso_chunksz");
    CHECK(us >= n, "%zu bytes asked for, chunk size %zu", n, us);
    Z *z = holder(p);
    CHECK(iso_find_zone_range(p) == z, "lookup of %p does not find its zone", p);
    if(z) {
        CHECK((uint64_t)(p - ub(z)) % z->chunk_size == 0, "%p is not at a chunk boundary", p);
        CHECK(us == z->chunk_size, "size of %p is %zu, its zone has chunks of %u", p, us, z->chunk_size);
        CHECK(z->internal, "a private zone served a plain allocation");
        size_t r = n < 32 ? 32 : (n + 31) / 32 * 32;
        CHECK(cal || !(r > 1024 && z->chunk_size >= r << 3), "%zu bytes served from a zone with chunks of %u", n, z->chunk_size);
        uint64_t i = (p - ub(z)) / z->chunk_size;
        CHECK(pair(z, i) == 1, "chunk %p is handed out with bitmap state %d", p, pair(z, i));
        freelist(z);
    } else {
        CHECK(us > SMALL_SIZE_MAX, "%zu bytes at %p belong to no zone", n, p);
        CHECK(((uintptr_t)p & 4095) == 0, "big allocation %p is not page aligned", p);
    }
    for(int i = 0; i < nl; i++) CHECK(!meets(&L[i], p, us), "%p (%zu) overlaps the live allocation %p (%zu)", p, us, L[i].p, L[i].usable);
    for(int i = 0; i < nq; i++) CHECK(!meets(&Q[i], p, us), "%p (%zu) overlaps %p, whose free still waits", p, us, Q[i].p);
    for(int i = 0; i < npf; i++) CHECK(!meets(&PF[i], p, us), "%p (%zu) overlaps the permanently freed %p", p, us, PF[i].p);
    A_ *x = &L[nl++];
    *x = (A_){p, n, us, keys++, z == NULL};
    return x;
}
static size_t hsize(void) {
    switch(below(10)) {
    case 0: return below(65536) + 1;
    case 1: return 65536 - below(64);
    case 2: return 65537 + below(300000);
    case 3: return (1UL << (4 + below(13))) + below(3) - 1;
    default: return 1 + below(3000);
    }
}
static void drop(int i, int how) {
    A_ x = L[i];
    CHECK(patok(x.p, x.n, x.key), "contents of the live allocation %p (%zu) changed", x.p, x.n);
    L[i] = L[--nl];
    H("%s %p size %zu", how == 0 ? "free" : how == 1 ? "free permanently" : "sized free", x.p, x.n);
    if(how == 0) {
        int flush = nq == CHUNK_QUARANTINE_SZ;
        iso_free(x.p);
        nolocks("iso_free");
        if(flush) { for(int j = 0; j < nq; j++) settle(&Q[j]); nq = 0; }
        Q[nq++] = x;
        if(!x.big) { Z *z = holder(x.p); CHECK(z && pair(z, (x.p - ub(z)) / z->chunk_size) == 1, "chunk %p was freed while its free should wait", x.p); }
    } else if(how == 1) {
        iso_free_permanently(x.p);
        nolocks("iso_free_permanently");
        if(!x.big) { if(npf < 400) PF[npf++] = x; Z *z = holder(x.p); if(z) CHECK(pair(z, (x.p - ub(z)) / z->chunk_size) == 3, "permanently freed chunk has state %d", pair(z, (x.p - ub(z)) / z->chunk_size)); }
        else CHECK(!readable(x.p) && !readable(x.p + x.n - 1), "a big allocation that was freed permanently is still accessible");
    } else {
        iso_free_size(x.p, x.big ? (x.n > SMALL_SIZE_MAX ? x.n : x.usable) : 1 + below(x.usable));
        nolocks("iso_free_size");
        settle(&x);
    }
}
static void wrongsize(void *x) { A_ *a = x; size_t n = a->big ? a->usable + 1 + below(2) * 100000 : a->usable + 1 + below(70000); iso_free_size(a->p, n); }
static void again(void *x) { A_ *a = x; iso_free_permanently(a->p); }
static void interior(void *x) { A_ *a = x; iso_free_permanently(a->p + 8 + 8 * below(a->usable / 8 - 1)); }

static void bigaudit(void) {
    /* the lists hold exactly what the history says, without cycles */
    int n = 0;
    for(iso_alloc_big_zone_t *b = _root->big_zone_used ? UNMASK_BIG_ZONE_NEXT(_root->big_zone_used) : NULL; b; b = b->next ? UNMASK_BIG_ZONE_NEXT(b->next) : NULL) {
        CHECK(readable(b) && ++n < 5000, "the list of used big allocations is broken");
        int f = 0;
        for(int i = 0; i < nl; i++) if(L[i].big && L[i].p == b->user_pages_start) { f++; CHECK(b->size >= L[i].n && b->size == L[i].usable, "size of the big allocation %p is %lu", L[i].p, b->size); }
        for(int i = 0; i < nq; i++) if(Q[i].big && Q[i].p == b->user_pages_start) f++;
        CHECK(f == 1, "used big allocation %p belongs to %d live allocations", b->user_pages_start, f);
        CHECK(!b->free, "a used big allocation is marked free");
    }
    int e = 0;
    for(int i = 0; i < nl; i++) e += L[i].big;
    for(int i = 0; i < nq; i++) e += Q[i].big;
    CHECK(n == e, "%d big allocations on the used list, %d are live", n, e);
    CHECK((uint32_t)n == _root->big_zone_used_count, "used count %u of %d", _root->big_zone_used_count, n);
    int fn = 0;
    for(iso_alloc_big_zone_t *b = _root->big_zone_free ? UNMASK_BIG_ZONE_NEXT(_root->big_zone_free) : NULL; b; b = b->next ? UNMASK_BIG_ZONE_NEXT(b->next) : NULL) {
        CHECK(readable(b) && ++fn < 5000, "the list of free big allocations is broken");
        CHECK(b->free, "a free big allocation is not marked free");
        for(int i = 0; i < nl; i++) CHECK(!meets(&L[i], b->user_pages_start, b->size), "a free big allocation overlaps the live %p", L[i].p);
    }
    CHECK((uint32_t)fn == _root->big_zone_free_count, "free count %u of %d", _root->big_zone_free_count, fn);
    CHECK(fn <= BIG_ZONE_MAX_FREE_LIST + 1, "%d free big allocations are kept", fn);
}

static void heap(int rounds, int big) {
    int cap = 80 + below(500);
    nl = nq = npf = 0;
    iso_flush_caches();
    for(int r = 0; r < rounds; r++) {
        int k = below(100);
        if((k < 45 && nl < cap) || nl == 0) {
            size_t n = big ? (below(3) ? 65537 + below(400000) : below(2) ? 65537 + 4096 * below(6) + below(4096) : 1000000 + below(3000000)) : hsize();
            uint8_t *p;
            if(k % 4 == 0) {
                size_t a = 1 + below(16); if(n % a) n += a - n % a;
                p = iso_calloc(n / a, a); H("calloc(%zu, %zu) -> %p", n / a, a, p);
                CHECK(p, "calloc returned null");
                for(size_t i = 0; i < n; i++) CHECK(p[i] == 0, "byte %zu of a zeroed allocation of %zu is %02x", i, n, p[i]);
            } else { p = iso_alloc(n); H("alloc(%zu) -> %p", n, p); }
            nolocks("allocation");
            CHECK(p, "%zu bytes: null", n);
            A_ *x = track(p, n, k % 4 == 0);
            pat(p, n, x->key);
        } else if(k < 55) {
            int i = below(nl); A_ x = L[i]; size_t n = big ? 65537 + below(400000) : hsize();
            CHECK(patok(x.p, x.n, x.key), "contents of the live allocation %p (%zu) changed", x.p, x.n);
            L[i] = L[--nl];
            uint8_t *p = iso_realloc(x.p, n);
            nolocks("iso_realloc");
            H("realloc(%p of %zu, %zu) -> %p", x.p, x.n, n, p);
            CHECK(p, "realloc returned null");
            CHECK(patok(p, n < x.n ? n : x.n, x.key), "realloc from %zu to %zu bytes lost contents", x.n, n);
            if(p != x.p && !x.big && holder(x.p)) { Z *z = holder(x.p); CHECK(pair(z, (x.p - ub(z)) / z->chunk_size) != 1 || _root->chunk_quarantine_count != (size_t)nq, "realloc left the old chunk in use"); }
            A_ *y = track(p, n, 0);
            pat(p, n, y->key);
        } else if(k < 57) { H("flush"); iso_flush_caches(); nolocks("iso_flush_caches"); for(int j = 0; j < nq; j++) settle(&Q[j]); nq = 0; }
        else if(k < 59 && nl) { A_ *x = &L[below(nl)]; CHECK(dies(wrongsize, x), "a sized free of %p (usable %zu) with a bigger size returned", x->p, x->usable); }
        else if(k < 60 && nl) { A_ *x = &L[below(nl)]; CHECK(dies(interior, x), "freeing an address inside %p returned", x->p); }
        else drop(below(nl), k < 85 ? 0 : k < 90 ? 1 : 2);
        heapaudit();
        if(big || below(10) == 0) bigaudit();
    }
    while(nl) drop(nl - 1, 0);
    iso_flush_caches(); nq = 0;
    heapaudit(); bigaudit();
    H("verify all"); iso_verify_zones(); nolocks("iso_verify_zones");
}
static void mode_heap(int r) { heap(r, 0); }
static void mode_big(int r) { heap(r, 1); }

static void bigalloc(void *x) { for(int i = 0; i < 200; i++) { void *p = iso_alloc(70000 + 4096 * i); if(!p) break; } }
static void bigfree_(void *x) { iso_free_permanently(x); }
static void mode_bigcanary(int rounds) {
    for(int r = 0; r < rounds; r++) {
        int n = 3 + below(6); uint8_t *v[10];
        for(int i = 0; i < n; i++) v[i] = iso_alloc(65537 + below(200000));
        iso_flush_caches();
        iso_alloc_big_zone_t *b = UNMASK_BIG_ZONE_NEXT(_root->big_zone_used);
        int k = below(n); while(k-- && b->next) b = UNMASK_BIG_ZONE_NEXT(b->next);
        uint64_t *c = below(2) ? &b->canary_a : &b->canary_b, o = *c;
        *c ^= 1UL << below(64);
        CHECK(dies(bigfree_, b->user_pages_start), "a big allocation was freed although its canary %c changed", c == &b->canary_a ? 'a' : 'b');
        *c = o;
        for(int i = 0; i < n; i++) { if(below(2)) iso_free_size(v[i], 65537); else iso_free(v[i]); }
        iso_flush_caches();
        if(_root->big_zone_free) {
            b = UNMASK_BIG_ZONE_NEXT(_root->big_zone_free);
            c = below(2) ? &b->canary_a : &b->canary_b; o = *c; *c ^= 1UL << below(64);
            CHECK(dies(bigalloc, NULL), "the list of free big allocations was used although a canary of its first entry changed");
            *c = o;
        }
    }
}

static void hugealloc(void *x) { void *p = iso_alloc(*(size_t *)x); if(!p) abort(); }
static void cal(void *x) { size_t *a = x; void *p = iso_calloc(a[0], a[1]); if(!p) abort(); }
static void ral(void *x) { size_t *a = x; void *p = iso_reallocarray(NULL, a[0], a[1]); if(!p) abort(); }
static void mode_overflow(int rounds) {
    for(int r = 0; r < rounds; r++) {
        size_t a[2];
        int k = below(7);
        a[0] = k == 0 ? 1UL << 32 : k == 1 ? SIZE_MAX / 2 + 1 : k == 2 ? SIZE_MAX : k == 3 ? rnd() : (1UL << (32 + below(31))) + below(5);
        a[1] = k == 0 ? 1UL << 32 : k == 1 ? 2 : k == 2 ? 1 + below(40) : k == 3 ? 1 + below(64) : (SIZE_MAX / a[0]) + 1 + below(16);
        __uint128_t pr = (__uint128_t)a[0] * a[1];
        if(pr <= BIG_SZ_MAX) continue;
        CHECK(dies(cal, a), "calloc(%lu, %lu) returned memory", a[0], a[1]);
        CHECK(dies(ral, a), "reallocarray(%lu, %lu) returned memory", a[0], a[1]);
        size_t h = k == 5 ? SIZE_MAX - below(70000) : BIG_SZ_MAX + 1 + below(1UL << 40);
        CHECK(dies(hugealloc, &h), "an allocation of %lu bytes returned memory", h);
    }
    for(int r = 0; r < rounds; r++) {
        size_t n = 1 + below(300), s = 1 + below(200);
        uint8_t *p = iso_calloc(n, s); CHECK(p && iso_chunksz(p) >= n * s, "calloc(%zu, %zu)", n, s);
        for(size_t i = 0; i < n * s; i++) CHECK(p[i] == 0, "calloc(%zu, %zu): byte %zu is %02x", n, s, i, p[i]);
        memset(p, 0xff, n * s);
        iso_free_permanently(p);
    }
}

static void mode_str(int rounds) {
    uint8_t *g = mmap(NULL, 3 * 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mprotect(g + 2 * 4096, 4096, PROT_NONE);
    iso_alloc_zone_handle *h = iso_alloc_new_zone(8192);
    CHECK(iso_strdup(NULL) == NULL && iso_strndup(NULL, 4) == NULL && iso_strdup_from_zone(h, NULL) == NULL && iso_strndup_from_zone(h, NULL, 3) == NULL, "the duplicate of a null string is not null");
    for(int r = 0; r < rounds; r++) {
        size_t n = below(4) ? below(60) : below(8000); char *s = (char *)g + 2 * 4096 - n - 1;
        for(size_t i = 0; i < n; i++) s[i] = 1 + below(255);
        s[n] = 0;
        char *d = below(2) ? iso_strdup(s) : iso_strdup_from_zone(h, s);
        CHECK(d && !strcmp(d, s) && iso_chunksz(d) > n, "strdup of %zu bytes", n);
        iso_free_permanently(d);
        size_t b = below(3) ? below(n + 3) : below(9000);
        if(below(2)) { s = (char *)g + 2 * 4096 - n; for(size_t i = 0; i < n; i++) s[i] = 1 + below(255); b = b > n ? n : b; }
        size_t e = strnlen(s, b);
        d = below(2) || e > 8000 ? iso_strndup(s, b) : iso_strndup_from_zone(h, s, b);
        CHECK(d && !memcmp(d, s, e) && d[e] == 0, "strndup of %zu bytes bounded by %zu", n, b);
        iso_free_size(d, e + 1);
    }
}

static void mode_arith(int rounds) {
    for(int r = 0; r < rounds * 1000; r++) {
        uint64_t v = rnd() >> below(64); if(below(2)) v = (1UL << below(63)) + below(3) - 1;
        int p2 = __builtin_popcountll(v) <= 1;
        CHECK(is_pow2(v) == p2, "is_pow2(%lx) is %d", v, is_pow2(v));
        if(v < 1UL << 63) { uint64_t e = 1; while(e <= v) e <<= 1; CHECK(next_pow2(v) == e, "next_pow2(%lx) is %lx", v, next_pow2(v)); }
        uint32_t w = (uint32_t)v; if(w) CHECK(_log2(w) == 31u - __builtin_clz(w), "_log2(%x) is %u", w, _log2(w));
    }
}

static void mapguard(void *x) { mapfail = 1 + below(1); void *p = mmap_guarded_rw_pages(*(size_t *)x, false, NULL); (void)p; }
static void maprw(void *x) { mapfail = 1; void *p = mmap_rw_pages(*(size_t *)x, false, NULL); (void)p; }
static void mapover(void *x) { void *p = mmap_guarded_rw_pages(*(size_t *)x, false, NULL); if(!p) abort(); }
static void mode_map(int rounds) {
    for(int r = 0; r < rounds; r++) {
        size_t n = 1 + below(below(2) ? 5 : 20) * 4096 + below(4096), e = (n + 4095) / 4096 * 4096;
        if(below(3) == 0) n = e;
        uint8_t *p = mmap_guarded_rw_pages(n, below(2), NULL);
        CHECK(((uintptr_t)p & 4095) == 0, "guarded mapping %p", p);
        for(size_t o = 0; o < e; o += 4096) CHECK(writable(p + o), "page %zu of a guarded mapping of %zu bytes is not writable", o / 4096, n);
        CHECK(writable(p + e - 1), "the end of a guarded mapping of %zu bytes is not writable", n);
        CHECK(mapped(p - 4096) && !readable(p - 1) && !readable(p - 4096), "no guard below a guarded mapping of %zu bytes", n);
        CHECK(mapped(p + e) && !readable(p + e) && !readable(p + e + 4095), "no guard above a guarded mapping of %zu bytes", n);
        unmap_guarded_pages(p, n);
        for(size_t o = 0; o < e + 8192; o += 4096) CHECK(!mapped(p - 4096 + o), "page %zu of a released guarded mapping is still there", o / 4096);
        p = mmap_rw_pages(n, below(2), NULL);
        for(size_t o = 0; o < e; o += 4096) CHECK(writable(p + o), "page %zu of a mapping of %zu bytes is not writable", o / 4096, n);
        munmap(p, e);
        CHECK(dies(mapguard, &n), "a guarded mapping of %zu bytes was returned although the system refused it", n);
        CHECK(dies(maprw, &n), "a mapping of %zu bytes was returned although the system refused it", n);
        size_t o = SIZE_MAX - 4096 * 2 - below(4096);
        CHECK(dies(mapover, &o), "a guarded mapping of %zu bytes was returned", o);
    }
}

static void ent(void *x) { entfail = *(int *)x; (void)rand_uint64(); }
static void mode_random(int rounds) {
    for(int k = 1; k <= 3; k++) CHECK(dies(ent, &k), "a random value was delivered although the entropy source %s", k == 1 ? "failed" : k == 2 ? "delivered half a word" : "delivered nothing");
    for(int r = 0; r < rounds; r++) { entuse = 1; entval = rnd(); uint64_t v = rand_uint64(); entuse = 0; CHECK(v == entval, "the entropy source delivered %lx, the value used is %lx", entval, v); }
}

static void mode_lookup(int rounds) {
    for(int i = 0; i < 30; i++) { iso_alloc_zone_handle *h = iso_alloc_new_zone(1024 << below(7)); CHECK(h, "no zone"); (void)!iso_alloc(1 + below(60000)); }
    for(int r = 0; r < rounds * 20; r++) {
        Z *z = &_root->zones[below(_root->zones_used)];
        uint8_t *p = ub(z);
        switch(below(6)) { case 0: break; case 1: p += ZONE_USER_SIZE - 1; break; case 2: p += ZONE_USER_SIZE; break; case 3: p -= 1; break; case 4: p += below(ZONE_USER_SIZE); break; default: p = (uint8_t *)rnd(); }
        if(below(3) == 0) _root->chunk_lookup_table[ADDR_TO_CHUNK_TABLE(p)] = below(_root->zones_used);
        Z *e = holder(p), *g;
        __real_pthread_mutex_lock(&root_busy_mutex);
        g = iso_find_zone_range(p);
        CHECK(g == e, "lookup of %p finds zone %ld, it lies in zone %ld", p, g ? (long)g->index : -1, e ? (long)e->index : -1);
        p = (uint8_t *)bm(z);
        switch(below(4)) { case 0: break; case 1: p += z->bitmap_size - 1; break; case 2: p += z->bitmap_size; break; default: p += below(z->bitmap_size); }
        e = NULL; for(size_t i = 0; i < _root->zones_used; i++) { uint8_t *b = (uint8_t *)bm(&_root->zones[i]); if(p >= b && p < b + _root->zones[i].bitmap_size) e = &_root->zones[i]; }
        g = iso_find_zone_bitmap_range(p);
        CHECK(g == e, "bitmap lookup of %p finds zone %ld, it lies in zone %ld", p, g ? (long)g->index : -1, e ? (long)e->index : -1);
        __real_pthread_mutex_unlock(&root_busy_mutex);
    }
}

static void mode_search(int rounds) {
    if(rounds > 3) rounds = 3;
    for(int r = 0; r < rounds; r++) {
        uint64_t v = 0x1122334455667700UL | (uint64_t)(r + 1); v ^= rnd() & 0x00ffffffffff0000UL; v &= 0x00ffffffffffffffUL;
        Z *z = &_root->zones[below(3) ? _root->zones_used - 1 : below(_root->zones_used)];
        uint8_t *at = ub(z) + (below(2) ? ZONE_USER_SIZE - 8 : below(ZONE_USER_SIZE - 8));
        CHECK(_iso_alloc_ptr_search((void *)v, false) == NULL, "found an address no zone holds");
        uint64_t o; memcpy(&o, at, 8); memcpy(at, &v, 8);
        void *g = _iso_alloc_ptr_search((void *)v, false);
        uint64_t w = 0; if(g) memcpy(&w, g, 8);
        CHECK(g && w == v, "address stored at %p (zone %u, offset %lx) not found", at, z->index, (long)(at - ub(z)));
        memcpy(&w, at, 8); CHECK(w == v, "the search changed memory");
        memcpy(at, &o, 8);
    }
}

static void destroyed(void *x) { struct zp *q = x; iso_free_permanently(q->p); }
static void mode_destroy(int rounds) {
    for(int r = 0; r < rounds; r++) {
        M a, b; newm(&a, rsize()); newm(&b, rsize());
        for(int i = 0; i < 20; i++) { zalloc(&a); zalloc(&b); }
        void *q[5]; for(int i = 0; i < 5; i++) q[i] = iso_alloc(2000);
        uint8_t *u = a.u; size_t used = _root->zones_used; int own = a.z->preallocated_bitmap_idx == -1; uint8_t *bp = (uint8_t *)a.b; uint32_t idx = a.z->index;
        uint32_t iu[8]; for(int i = 0; i < 7; i++) iu[i] = _root->bitmaps[i].in_use;
        int pi = a.z->preallocated_bitmap_idx, bs = a.z->bitmap_size;
        H("destroy zone %u", idx);
        iso_alloc_destroy_zone(a.h);
        nolocks("iso_alloc_destroy_zone");
        CHECK(_root->zones_used == used, "the number of zones changed from %zu to %zu", used, (size_t)_root->zones_used);
        for(int i = 0; i < 7; i++) if(_root->bitmaps[i].bucket == (uint32_t)bs && !own) {
            uint32_t e = iu[i] & ~(1u << pi);
            Z *z = &_root->zones[idx];
            if(z->preallocated_bitmap_idx >= 0 && (uint8_t *)bm(z) >= (uint8_t *)_root->bitmaps[i].bitmap && (uint8_t *)bm(z) < (uint8_t *)_root->bitmaps[i].bitmap + 4096) e |= 1u << z->preallocated_bitmap_idx;
            CHECK(_root->bitmaps[i].in_use == e, "shares in use of bucket %d are %x, expected %x", bs, _root->bitmaps[i].in_use, e);
        } else if(_root->bitmaps[i].bucket != (uint32_t)_root->zones[idx].bitmap_size) CHECK(_root->bitmaps[i].in_use == iu[i], "another bucket changed");
        audit(&b, "after another zone was destroyed");
        for(uint32_t i = 0; i < b.n; i++) if(b.st[i] == LIVE) CHECK(patok(b.u + (uint64_t)i * b.cs, b.cs, b.key[i]), "contents of another zone changed");
        Z *z = &_root->zones[idx];
        if(ub(z) != u) { for(size_t o = 0; o < ZONE_USER_SIZE; o += 4096 * 64) if(!holder(u + o)) CHECK(!readable(u + o), "page %zu of the destroyed zone is still accessible", o / 4096); }
        (void)bp;
        for(int i = 0; i < 5; i++) iso_free_permanently(q[i]);
        arena_free(a.st, a.n); arena_free(a.key, a.n * 8); delm(&b);
        heapaudit();
    }
}

static void mode_retire(int rounds) {
    /* wear zones out; an allocation that is live must survive every replacement */
    nl = nq = npf = 0; iso_flush_caches();
    size_t s[] = {32, 64, 8192, 4096, 12000, 16000};
    for(int r = 0; r < rounds && r < 40; r++) {
        size_t n = s[below(6)];
        if(n < 4096) n = 8192;
        for(int i = 0; i < 30000; i++) {
            uint8_t *p = iso_alloc(n);
            CHECK(p, "null");
            Z *z = holder(p); CHECK(z && z->chunk_size >= n, "wrong zone");
            iso_free_size(p, n);
            if(i % 1000 == 0) { zones_sane(); for(size_t k = 0; k < _root->zones_used; k++) if(_root->zones[k].chunk_size == z->chunk_size) freelist(&_root->zones[k]); }
        }
    }
}

static void mode_handles(int rounds) {
    CHECK(iso_alloc_new_zone(SMALL_SIZE_MAX + 1 + below(1000)) == NULL, "a refused zone yields a handle");
    CHECK(iso_alloc_from_zone(NULL) == NULL && iso_alloc_from_zone_tagged(NULL) == NULL && iso_alloc_tag_ptr(&rounds, NULL) == NULL && iso_alloc_untag_ptr(&rounds, NULL) == NULL && iso_alloc_get_mem_tag(&rounds, NULL) == 0, "a null handle was used");
    iso_alloc_verify_ptr_tag(NULL, NULL); iso_alloc_destroy_zone(NULL); iso_verify_zone(NULL); CHECK(iso_alloc_detect_zone_leaks(NULL) == 0 && iso_alloc_zone_mem_usage(NULL) == 0, "a null handle was used");
    for(int r = 0; r < rounds && r < 40; r++) {
        M m; newm(&m, rsize());
        CHECK((uintptr_t)m.h != (uintptr_t)m.z, "the handle is the zone itself");
        for(int i = 0; i < 10; i++) zalloc(&m);
        size_t cc = iso_zone_chunk_count(m.h); CHECK(cc && cc <= m.z->chunk_count, "chunk count %zu", cc);
        iso_verify_zone(m.h);
        char *d = iso_strdup_from_zone(m.h, "abc"); CHECK(d && holder(d) == m.z && !strcmp(d, "abc"), "string duplicate from a zone");
        m.st[(uint8_t *)d - m.u ? ((uint8_t *)d - m.u) / m.cs : 0] = LIVE; m.live++; pat(d, m.cs, m.key[((uint8_t *)d - m.u) / m.cs] = keys++);
        while(m.live) zfree(&m, pick(&m, LIVE), below(4) == 0);
        audit(&m, "handles");
        delm(&m);
    }
}

#if MEMORY_TAGGING
struct tg { M *m; void *p; };
static void vt(void *x) { struct tg *q = x; iso_alloc_verify_ptr_tag(q->p, q->m->h); }
static void gt(void *x) { struct tg *q = x; (void)!iso_alloc_get_mem_tag(q->p, q->m->h); }
static uint8_t *tags(M *m) { return m->u - g_page_size - ROUND_UP_PAGE(m->z->chunk_count * MEM_TAG_SIZE); }
static void mode_tags(int rounds) {
    M m; newm(&m, 256 + below(20000));
    for(int i = 0; i < 60; i++) zalloc(&m);
    uint8_t *t0 = arena(m.n);
    for(int r = 0; r < rounds; r++) {
        uint32_t i = pick(&m, LIVE); if(i == ~0u) { zalloc(&m); continue; }
        uint8_t *p = m.u + (uint64_t)i * m.cs; uint8_t t = tags(&m)[i];
        CHECK(iso_alloc_get_mem_tag(p, m.h) == t, "tag of chunk %u", i);
        void *tp = iso_alloc_tag_ptr(p, m.h);
        CHECK(tp == (void *)((uint64_t)p | (uint64_t)t << 56), "tagged pointer of chunk %u is %p", i, tp);
        CHECK(iso_alloc_untag_ptr(tp, m.h) == p, "untagging chunk %u", i);
        iso_alloc_verify_ptr_tag(tp, m.h);
        struct tg q = {&m, (void *)((uint64_t)tp ^ (uint64_t)(1 + below(255)) << 56)};
        CHECK(dies(vt, &q), "a wrong tag was accepted");
        q.p = p + 1 + below(m.cs - 1); CHECK(dies(gt, &q), "an address inside a chunk got a tag");
        q.p = below(2) ? m.u - 1 - below(5000) : m.u + ZONE_USER_SIZE + below(5000); CHECK(dies(gt, &q), "an address outside the zone got a tag");
        memcpy(t0, tags(&m), m.n);
        if(below(2)) zfree(&m, i, 0); else { void *x = iso_alloc_from_zone_tagged(m.h); if(x) { uint8_t *y = (uint8_t *)((uint64_t)x & TAGGED_PTR_MASK); uint32_t j = (y - m.u) / m.cs; CHECK((uint64_t)x >> 56 == tags(&m)[j], "tag of a fresh chunk"); m.st[j] = LIVE; m.live++; pat(y, m.cs, m.key[j] = keys++); } }
        for(uint32_t j = 0; j < m.n; j++) if(j != i && m.st[j] == LIVE) CHECK(t0[j] == tags(&m)[j], "the tag of live chunk %u changed when chunk %u was freed", j, i);
    }
    delm(&m);
}
#endif

#if LEAK_DETECTOR
static void mode_leaks(int rounds) {
    M m; newm(&m, rsize());
    for(int r = 0; r < rounds; r++) {
        if(below(3)) zalloc(&m); else if(m.live) zfree(&m, pick(&m, LIVE), 0);
        uint64_t g = iso_alloc_detect_zone_leaks(m.h);
        CHECK(g == m.live, "%u chunks in use, %lu leaks reported", m.live, g);
        audit(&m, "after leak detection");
    }
    delm(&m);
}
#endif

#if MEMCPY_SANITY
struct cp { void *d, *s; size_t n; int f; };
static void cpy(void *x) { struct cp *c = x; if(c->f == 0) _iso_alloc_memcpy(c->d, c->s, c->n); else if(c->f == 1) _iso_alloc_memmove(c->d, c->s, c->n); else _iso_alloc_memset(c->d, 3, c->n); }
static void mode_libc(int rounds) {
    static uint8_t big[300000], ref[300000];
    for(int r = 0; r < rounds; r++) {
        size_t n = 1 + below(5000); uint8_t *p = iso_alloc(n); size_t us = iso_chunksz(p);
        for(size_t i = 0; i < 20000; i++) big[i] = ref[i] = rnd();
        size_t k = below(us + 1);
        CHECK(_iso_alloc_memcpy(p, big, k) == p && !memcmp(p, big, k), "memcpy of %zu bytes", k);
        CHECK(_iso_alloc_memset(p, 7, k) == p, "memset"); for(size_t i = 0; i < k; i++) CHECK(p[i] == 7, "memset of %zu bytes", k);
        size_t a = below(1000), b = below(1000), l = below(10000);
        memmove(ref + a, ref + b, l); CHECK(_iso_alloc_memmove(big + a, big + b, l) == big + a && !memcmp(big, ref, 20000), "memmove of %zu bytes from %zu to %zu", l, b, a);
        Z *z = holder(p);
        if(z && p + us + 8 + 4096 < ub(z) + ZONE_USER_SIZE) {
            _root->chunk_lookup_table[ADDR_TO_CHUNK_TABLE(p)] = z->index;
            for(int f = 0; f < 3; f++) { struct cp c = {p, big, us + 1 + below(8), f}; CHECK(dies(cpy, &c), "%s of %zu bytes into a chunk of %zu returned", f == 0 ? "memcpy" : f == 1 ? "memmove" : "memset", c.n, us); }
            for(int f = 0; f < 2; f++) { struct cp c = {big, p, us + 1 + below(8), f}; CHECK(dies(cpy, &c), "%s of %zu bytes out of a chunk of %zu returned", f == 0 ? "memcpy" : "memmove", c.n, us); }
        }
        iso_free_permanently(p);
    }
}
#endif

#if MALLOC_HOOK
#include <malloc.h>
extern void *memalign(size_t, size_t);
extern void *reallocarray(void *, size_t, size_t);
static void mode_shims(int rounds) {
    for(int r = 0; r < rounds; r++) {
        size_t n = 1 + below(below(4) ? 3000 : 200000);
        uint8_t *p = malloc(n); CHECK(p && holder(p) ? holder(p)->chunk_size >= n : iso_chunksz(p) >= n, "malloc(%zu)", n);
        CHECK(malloc_usable_size(p) == iso_chunksz(p), "malloc_usable_size");
        pat(p, n, r);
        size_t k = 1 + below(4000); uint8_t *q = realloc(p, k); CHECK(q && patok(q, k < n ? k : n, r), "realloc(%zu -> %zu)", n, k);
        free(q);
        size_t a = 1 + below(20), b = 1 + below(300); p = calloc(a, b); CHECK(p && iso_chunksz(p) >= a * b, "calloc"); for(size_t i = 0; i < a * b; i++) CHECK(p[i] == 0, "calloc(%zu, %zu) not zero", a, b);
        p = reallocarray(p, b, a); CHECK(p && iso_chunksz(p) >= a * b, "reallocarray"); free(p);
        size_t al = 1UL << (3 + below(10)); void *m = NULL; int e = posix_memalign(&m, al, n);
        CHECK(e ? m == NULL : ((uintptr_t)m % (al > 32 ? 32 : al) == 0 && iso_chunksz(m) >= n), "posix_memalign(%zu, %zu) gives %p, error %d", al, n, m, e);
        if(m) free(m);
        m = NULL; CHECK(posix_memalign(&m, 24, n) == EINVAL && posix_memalign(&m, 12, n) == EINVAL && !m, "posix_memalign accepts a bad alignment");
        m = aligned_alloc(al, n); CHECK(!m || ((uintptr_t)m % (al > 32 ? 32 : al) == 0 && iso_chunksz(m) >= n), "aligned_alloc(%zu, %zu) gives %p", al, n, m); if(m) free(m);
        m = memalign(al, n); CHECK(!m || ((uintptr_t)m % (al > 32 ? 32 : al) == 0 && iso_chunksz(m) >= n), "memalign(%zu, %zu) gives %p", al, n, m); if(m) free(m);
    }
}
#endif

static void zfree0(void *x) { iso_free_size(x, 1); }
static void mode_zero(int rounds) {
#if NO_ZERO_ALLOCATIONS
    uint8_t *p = iso_alloc(0);
    CHECK(p && p == _root->zero_alloc_page && iso_alloc(0) == (void *)p, "allocations of size zero are not the one reserved page");
    CHECK(mapped(p) && !readable(p) && !readable(p + 4095), "the page for allocations of size zero is accessible");
    for(int i = 0; i < 3; i++) { iso_free(p); iso_free_permanently(p); iso_free_size(p, 0); }
    iso_flush_caches();
    CHECK(mapped(p) && !readable(p) && iso_chunksz(p) == 0 && iso_alloc(0) == (void *)p, "freeing an allocation of size zero did something");
    CHECK(dies(zfree0, p), "a sized free of a zero allocation with a size returned");
#endif
}

/* the state after the first use, and what teardown leaves behind */
static void destroy_all(void *x) { (void)x; _iso_alloc_destroy(); _exit(7); }
static void mode_teardown(int rounds) {
    size_t nz = sizeof(default_zones) / sizeof(default_zones[0]);
    CHECK(_root && g_page_size == 4096 && _root->zones_used == nz, "%zu zones after the first use", (size_t)_root->zones_used);
    for(size_t i = 0; i < nz; i++) CHECK(_root->zones[i].chunk_size == default_zones[i] && _root->zones[i].internal, "zone %zu has chunks of %u", i, _root->zones[i].chunk_size);
    void *roots = _root, *zs = _root->zones; uint64_t sd = _root->seed, hm = _root->zone_handle_mask;
    _iso_alloc_initialize(); iso_alloc_initialize_global_root();
    CHECK(_root == roots && _root->zones == zs && _root->seed == sd && _root->zone_handle_mask == hm && _root->zones_used == nz, "a second initialisation did something");
    size_t nb = sizeof(small_bitmap_sizes) / sizeof(int);
    for(size_t i = 0; i + 2 < nb; i++) CHECK(_root->bitmaps[i].bucket == small_bitmap_sizes[i] && writable(_root->bitmaps[i].bitmap), "shared bitmap page %zu", i);
    CHECK(_root->zone_handle_mask && _root->big_zone_next_mask && _root->big_zone_canary_secret && _root->seed, "a secret is zero");
    static void *q[64]; size_t sz[64], n = 1 + below(rounds < 40 ? rounds + 1 : 40), nk = 0;
    for(size_t i = 0; i < n; i++) { sz[i] = 65537 + below(3000000); q[i] = iso_alloc(sz[i]); CHECK(q[i], "null"); }
    for(size_t i = 0; i < n; i++) if(below(3) == 0) iso_free_size(q[i], sz[i]);
    for(int i = 0; i < 50; i++) { void *p = iso_alloc(rsize()); if(below(2)) iso_free(p); }
    struct { void *u, *m; size_t s; } k[128];
    iso_alloc_big_zone_t *b = _root->big_zone_used;
    for(int l = 0; l < 2; l++, b = _root->big_zone_free) while(b && nk < 128) { b = UNMASK_BIG_ZONE_NEXT(b); k[nk].u = b->user_pages_start; k[nk].m = b; k[nk++].s = b->size; b = b->next; }
    if(below(3) == 0) {
        M m; newm(&m, rsize()); for(int i = 0; i < 5; i++) zalloc(&m); zfree(&m, pick(&m, LIVE), 0); iso_flush_caches();
        uint32_t i = pick(&m, FREED); if(i != ~0u) { *(uint64_t *)(m.u + (uint64_t)i * m.cs) ^= 0x1000; CHECK(dies(destroy_all, NULL) == SIGABRT, "teardown with a damaged canary in a zone did not abort"); *(uint64_t *)(m.u + (uint64_t)i * m.cs) ^= 0x1000; }
    }
    if(nk && below(3) == 0) { iso_alloc_big_zone_t *x = k[below(nk)].m; x->canary_b ^= 1; CHECK(dies(destroy_all, NULL) == SIGABRT, "teardown with a damaged big allocation did not abort"); x->canary_b ^= 1; }
    void *zp = NULL;
#if NO_ZERO_ALLOCATIONS
    zp = _root->zero_alloc_page; CHECK(mapped(zp), "no page for size zero");
#endif
    H("teardown with %zu big allocations", nk);
    _iso_alloc_destroy();
    nolocks("teardown");
    for(size_t i = 0; i < nk; i++) {
        for(size_t o = 0; o < k[i].s; o += 4096) CHECK(!mapped((char *)k[i].u + o), "page %zu of big allocation %zu of %zu is still mapped after teardown", o / 4096, i, nk);
        CHECK(!mapped(k[i].m), "the metadata of big allocation %zu of %zu is still mapped after teardown", i, nk);
    }
    if(zp) CHECK(!mapped(zp), "the page for size zero is still mapped after teardown");
    _exit(0);
}

struct mode { const char *n; void (*f)(int); };
static struct mode modes[] = {{"zone", mode_zone}, {"small", mode_small}, {"badfree", mode_badfree}, {"canary", mode_canary}, {"heap", mode_heap}, {"big", mode_big}, {"bigcanary", mode_bigcanary},
    {"overflow", mode_overflow}, {"str", mode_str}, {"arith", mode_arith}, {"map", mode_map}, {"random", mode_random}, {"lookup", mode_lookup}, {"search", mode_search},
    {"destroy", mode_destroy}, {"retire", mode_retire}, {"handles", mode_handles}, {"zero", mode_zero}, {"teardown", mode_teardown},
#if MEMORY_TAGGING
    {"tags", mode_tags},
#endif
#if LEAK_DETECTOR
    {"leaks", mode_leaks},
#endif
#if MEMCPY_SANITY
    {"libc", mode_libc},
#endif
#if MALLOC_HOOK
    {"shims", mode_shims},
#endif
};

int main(int c, char **v) {
    if(c < 4) return 3;
    for(unsigned i = 0; i < sizeof modes / sizeof *modes; i++) {
        if(strcmp(modes[i].n, v[1])) continue;
        struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
        pid_t p = fork();
        if(p == 0) {
            S0_ = 0x9e3779b97f4a7c15UL * (strtoull(v[2], 0, 0) + 1); for(int k = 0; k < 8; k++) rnd();
            alarm(120);
            nheld = 0;
            modes[i].f(atoi(v[3]));
            nolocks(v[1]);
            _exit(0);
        }
        int st; waitpid(p, &st, 0);
        if(WIFEXITED(st)) return WEXITSTATUS(st);
        if(WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGKILL) return 2;
        dprintf(1, "FAIL the process was terminated by signal %d during correct use (mode %s, seed %s)\n", WTERMSIG(st), v[1], v[2]);
        return 1;
    }
    return 3;
}
