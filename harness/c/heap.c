// LD_PRELOAD allocator which checks the heap discipline of a compiled program.
//
// Every block lives in its own arena slot with guard bytes on both sides. Freed memory is filled with a pattern which is
// neither a valid pointer nor a small number and is never handed out again, so a read after free yields the pattern and a
// write after free is seen at exit. Statistics and errors go to the file named by HEAPSTAT.
#define _GNU_SOURCE
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <fcntl.h>
#include <unistd.h>

#define ARENA (3ull << 30)
#define GUARD 32
#define LIVE 0x4c49564542414245ull
#define DEAD 0x44454144424c4b53ull

typedef struct { uint64_t state, size, magic2, pad; } hdr; // 32 bytes

static unsigned char *arena, *top, *end;
static uint64_t allocs, frees, live, peak, livesz, peaksz;
static char errs[2048];
static int nerr;
// 0xDD...DB: as a tagged int huge and odd, as a pointer non-canonical
static const unsigned char poison[8] = { 0xd8, 0xdd, 0xdd, 0xdd, 0xdd, 0xdd, 0xdd, 0xdd };

static void err(const char *what, uint64_t a, uint64_t b)
{
    if (nerr++ < 5) {
        size_t n = strlen(errs);
        snprintf(errs + n, sizeof errs - n, "error %s (block size %llu, offset %lld)\n", what, (unsigned long long)a, (long long)b);
    }
}

static void report(void)
{
    const char *p = getenv("HEAPSTAT");
    if (!p) return;
    int fd = open(p, O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd < 0) return;
    char buf[4096];
    int n = snprintf(buf, sizeof buf, "allocs %llu\nfrees %llu\nlive %llu\npeak %llu\npeaksz %llu\n%s", (unsigned long long)allocs,
        (unsigned long long)frees, (unsigned long long)live, (unsigned long long)peak, (unsigned long long)peaksz, errs);
    if (write(fd, buf, n)) {}
    close(fd);
}

static void die(void) { report(); _exit(86); }

static void init(void)
{
    arena = mmap(0, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (arena == MAP_FAILED) _exit(87);
    top = arena;
    end = arena + ARENA;
}

static size_t round16(size_t n) { return (n + 15) & ~(size_t)15; }

static void *get(size_t size, int zero)
{
    if (!arena) init();
    size_t body = round16(size);
    if (size > ARENA || top + sizeof(hdr) + body + GUARD > end) { err("arena exhausted", size, 0); report(); _exit(88); }
    hdr *h = (hdr *)top;
    unsigned char *p = top + sizeof(hdr);
    top += sizeof(hdr) + body + GUARD;
    h->state = LIVE; h->size = size; h->magic2 = LIVE ^ size; h->pad = 0xa5a5a5a5a5a5a5a5ull;
    if (!zero) memset(p, 0xcd, size); // arena memory is fresh, hence zero
    memset(p + size, 0xa5, body - size + GUARD);
    allocs++; live++; livesz += size;
    if (live > peak) peak = live;
    if (livesz > peaksz) peaksz = livesz;
    return p;
}

static void check(hdr *h)
{
    unsigned char *p = (unsigned char *)(h + 1);
    size_t body = round16(h->size);
    for (size_t i = h->size; i < body + GUARD; i++)
        if (p[i] != 0xa5) { err("write past the end of a block", h->size, i); break; }
    if (h->pad != 0xa5a5a5a5a5a5a5a5ull || h->magic2 != (LIVE ^ h->size)) err("write before the start of a block", h->size, -8);
    if (h->state == DEAD)
        for (size_t i = 0; i < h->size; i++)
            if (p[i] != poison[i & 7]) { err("write to freed memory", h->size, i); break; }
}

void *malloc(size_t n) { return get(n, 0); }
void *calloc(size_t a, size_t b) { return get(a * b, 1); }

void free(void *q)
{
    unsigned char *p = q;
    if (!p) return;
    if (p < arena || p >= top) { err("free of an address which was never allocated", 0, 0); die(); }
    if ((uintptr_t)p & 15) { err("free of a misaligned address", 0, 0); die(); }
    hdr *h = (hdr *)p - 1;
    if (h->state == DEAD && h->magic2 == (LIVE ^ h->size)) { err("double free", h->size, 0); die(); }
    if (h->state != LIVE || h->magic2 != (LIVE ^ h->size)) { err("free of an address inside a block or with a damaged header", 0, 0); die(); }
    check(h);
    h->state = DEAD;
    for (size_t i = 0; i < h->size; i++) p[i] = poison[i & 7];
    frees++; live--; livesz -= h->size;
}

void *realloc(void *q, size_t n)
{
    void *r = get(n, 0);
    if (q) {
        hdr *h = (hdr *)q - 1;
        memcpy(r, q, h->size < n ? h->size : n);
        free(q);
    }
    return r;
}

__attribute__((destructor)) static void finish(void)
{
    for (unsigned char *p = arena; p && p < top;) {
        hdr *h = (hdr *)p;
        if (h->state != LIVE && h->state != DEAD) { err("damaged block header", 0, p - arena); break; }
        check(h);
        p += sizeof(hdr) + round16(h->size) + GUARD;
    }
    report();
}
