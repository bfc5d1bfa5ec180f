// Seeded heap: every object the program allocates comes from here, at addresses and with initial
// contents chosen by the run's seed, surrounded by poisoned red zones; freed memory is poisoned.
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <new>
#include <sys/mman.h>
#include <sanitizer/asan_interface.h>
#include "alloc.hh"

static const uintptr_t BASE = 0x200000000000ull;
static const size_t SUB = 64ull << 20;
static const int NSUB = 4;
static char *lo[NSUB], *hi[NSUB];
static bool active = false;
static int mode = 0, fill = 0;
static uint64_t rs = 1;
int g_in_kernel = 0;
unsigned long g_allocs = 0;
long g_fail_alloc_at = -1;

struct Hdr { size_t size; uint32_t magic; int32_t cls; };
static const int NCLS = 64;
static void *freeList[NCLS];

static inline uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }

void heap_reserve()
{
    void *p = mmap((void *)BASE, SUB * NSUB, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void *)BASE) { static const char m[] = "jsim: cannot map heap\n"; (void)!::write(2, m, sizeof m - 1); _exit(99); }
    for (int i = 0; i < NSUB; ++i) { lo[i] = (char *)BASE + i * SUB; hi[i] = lo[i] + SUB; }
    ASAN_POISON_MEMORY_REGION((void *)BASE, SUB * NSUB);
}

void heap_start(uint64_t seed, int m, int f)
{
    rs = seed * 0x9E3779B97F4A7C15ull + 0x1234567; if (!rs) rs = 1;
    for (int i = 0; i < 8; ++i) rnd();
    mode = m; fill = f; active = true;
}

void heap_stop() { active = false; }
static inline bool mine(void *p) { return (uintptr_t)p >= BASE && (uintptr_t)p < BASE + SUB * NSUB; }

void fill_garbage(void *p, size_t n)
{
    unsigned char *c = (unsigned char *)p;
    switch (fill) {
    case 0: memset(c, 0, n); break;
    case 1: memset(c, 0xff, n); break;
    case 2: memset(c, 0x01, n); break;
    case 3: memset(c, 0xbe, n); break;
    default: { size_t i = 0; for (; i + 8 <= n; i += 8) { uint64_t v = rnd(); memcpy(c + i, &v, 8); }
        for (; i < n; ++i) c[i] = (unsigned char)rnd(); }
    }
}

static void *arena_alloc(size_t n)
{
    size_t need = sizeof(Hdr) + ((n + 15) & ~(size_t)15) + 16;
    char *blk = nullptr;
    int cls = (int)(((n + 15) >> 4));
    if (mode == 3 && cls < NCLS && freeList[cls]) {
        Hdr *h = (Hdr *)freeList[cls];
        ASAN_UNPOISON_MEMORY_REGION(h, sizeof(Hdr) + 16);
        void *next; memcpy(&next, (char *)h + sizeof(Hdr), sizeof next);
        freeList[cls] = next;
        blk = (char *)h;
    } else {
        int s = (mode == 2) ? (int)(rnd() % NSUB) : 0;
        bool down = (mode == 1) || (mode == 2 && (s & 1));
        if ((size_t)(hi[s] - lo[s]) < need) { for (s = 0; s < NSUB && (size_t)(hi[s] - lo[s]) < need; ++s); if (s == NSUB) return nullptr; }
        if (down) { hi[s] -= need; blk = hi[s]; } else { blk = lo[s]; lo[s] += need; }
    }
    Hdr *h = (Hdr *)blk;
    ASAN_UNPOISON_MEMORY_REGION(h, sizeof(Hdr));
    h->size = n; h->magic = 0xA110Cu; h->cls = cls;
    void *u = blk + sizeof(Hdr);
    ASAN_UNPOISON_MEMORY_REGION(u, n);
    ASAN_POISON_MEMORY_REGION(h, sizeof(Hdr));
    fill_garbage(u, n);
    return u;
}

static void arena_free(void *p)
{
    Hdr *h = (Hdr *)((char *)p - sizeof(Hdr));
    ASAN_UNPOISON_MEMORY_REGION(h, sizeof(Hdr));
    if (h->magic != 0xA110Cu) heap_bad_free(p, h->magic == 0xF7EEDu);
    h->magic = 0xF7EEDu;
    int cls = h->cls;
    size_t n = h->size;
    ASAN_UNPOISON_MEMORY_REGION(p, (n + 15) & ~(size_t)15);
    fill_garbage(p, n);
    if (mode == 3 && cls < NCLS && cls > 0) {
        memcpy(p, &freeList[cls], sizeof(void *));
        freeList[cls] = h;
    }
    ASAN_POISON_MEMORY_REGION(h, sizeof(Hdr) + ((n + 15) & ~(size_t)15));
}

static void *do_new(size_t n)
{
    if (active && !g_in_kernel) {
        g_allocs++;
        void *p = arena_alloc(n ? n : 1);
        if (p) return p;
    }
    void *p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
static void do_delete(void *p) noexcept
{
    if (!p) return;
    if (mine(p)) arena_free(p); else free(p);
}

void *operator new(size_t n) { return do_new(n); }
void *operator new[](size_t n) { return do_new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return do_new(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return do_new(n); }
void operator delete(void *p) noexcept { do_delete(p); }
void operator delete[](void *p) noexcept { do_delete(p); }
void operator delete(void *p, size_t) noexcept { do_delete(p); }
void operator delete[](void *p, size_t) noexcept { do_delete(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { do_delete(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { do_delete(p); }
