// External functions for property C23. Linked into generated programs through a copy of the install directory.
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

// The stack must be aligned to 16 bytes at every call. A C function may overwrite all argument and scratch registers.
#define ENTER do { if ((uintptr_t) __builtin_frame_address(0) % 16) { printf("misaligned stack in %s\n", __func__); fflush(stdout); abort(); } \
    __asm__ volatile("movq $0x5a5a5a5a, %%rdi\n movq $0x5a5a5a5b, %%rsi\n movq $0x5a5a5a5c, %%rdx\n movq $0x5a5a5a5d, %%rcx\n movq $0x5a5a5a5e, %%r8\n" \
        "movq $0x5a5a5a5f, %%r9\n movq $0x5a5a5a60, %%r10\n movq $0x5a5a5a61, %%r11" ::: "rdi", "rsi", "rdx", "rcx", "r8", "r9", "r10", "r11", "memory"); } while (0)

typedef uint64_t u;

long probe_zero(void) { ENTER; return 41; }
long probe_one(long a) { ENTER; return a ^ 0x5555; }
long probe_two(long a, long b) { ENTER; return (long) ((u) a - 2 * (u) b); }
long probe_six(long a, long b, long c, long d, long e, long f)
{
    ENTER;
    return (long) ((u) a + 3 * (u) b + 5 * (u) c + 7 * (u) d + 11 * (u) e + 13 * (u) f);
}
long probe_less(long a, long b) { ENTER; return a < b ? 1 : a > b ? -1 : 0; }

static u hash(u h, const char *s) { for (; *s; s++) h = (h ^ (unsigned char) *s) * 16777619u % 2147483647u; return h; }
long probe_hash(const char *s) { ENTER; return (long) hash(17, s); }
long probe_mix(const char *s, long i, const char *t) { ENTER; return i >= 0 && i < (long) strlen(s) ? (unsigned char) s[i] : -(long) strlen(t); }
long probe_five(long a, const char *s, long b, const char *t, const char *v) { ENTER; return (long) (hash(hash(hash(5, s), t), v) + 3 * (u) a - (u) b); }
long probe_sum(const unsigned char *b, long n) { ENTER; long r = 0; for (long i = 0; i < n; i++) r += b[i] * (i + 1); return r; }
void probe_fill(char *b, long v, long n) { ENTER; for (long i = 0; i < n; i++) b[i] = (char) (v + i); }
void probe_say(long a, const char *s) { ENTER; printf("say %ld <%s>\n", a, s); }
void probe_poke(void) { ENTER; printf("poke\n"); }

// Values passed as they are
intptr_t probe_same(intptr_t a) { ENTER; return a; }
intptr_t probe_sameInt(intptr_t a) { ENTER; return a; }
intptr_t probe_sameBool(intptr_t a) { ENTER; return a; }
intptr_t probe_second(intptr_t a, intptr_t b) { ENTER; return b; }
intptr_t probe_fourth(intptr_t a, intptr_t b, intptr_t c, intptr_t d, intptr_t e) { ENTER; return d; }
intptr_t probe_last(intptr_t a, intptr_t b, intptr_t c, intptr_t d, intptr_t e, intptr_t f) { ENTER; return f; }
