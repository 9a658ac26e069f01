// What the instrumented build of the checks calls: block counters, and operands of comparisons in the code under test.
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#define MAXMOD 4096
static uint8_t *cnt_a[MAXMOD], *cnt_b[MAXMOD];
static const uintptr_t *pc_a[MAXMOD], *pc_b[MAXMOD];
static int ncnt, npcs;
void __sanitizer_cov_8bit_counters_init(uint8_t *a, uint8_t *b) {
    for (int i = 0; i < ncnt; i++) if (cnt_a[i] == a) return;
    if (a != b && ncnt < MAXMOD) { cnt_a[ncnt] = a; cnt_b[ncnt++] = b; }
}
void __sanitizer_cov_pcs_init(const uintptr_t *a, const uintptr_t *b) {
    for (int i = 0; i < npcs; i++) if (pc_a[i] == a) return;
    if (a != b && npcs < MAXMOD) { pc_a[npcs] = a; pc_b[npcs++] = b; }
}
int guide_modules(void) { return ncnt; }
void guide_module(int i, uint8_t **a, size_t *n, const uintptr_t **pcs) { *a = cnt_a[i]; *n = cnt_b[i] - cnt_a[i]; *pcs = pc_a[i]; }
uintptr_t guide_here(void) { return (uintptr_t)&guide_here; }
// code ranges of interest, sorted
static const uintptr_t *rng_; static size_t nrng;
void guide_ranges(const uintptr_t *r, size_t n) { rng_ = r; nrng = n; }
static int inside(uintptr_t pc) {
    size_t lo = 0, hi = nrng;
    while (lo < hi) { size_t m = (lo + hi) / 2; if (rng_[2 * m] <= pc) lo = m + 1; else hi = m; }
    return lo > 0 && pc < rng_[2 * (lo - 1) + 1];
}
static __thread int active;
void guide_active(int on) { active = on; }
#define CACHE 65536
// per comparison: whether it lies in the code of interest, and how often it ran in this run (the first few times count)
static struct site { uintptr_t pc; uint32_t run; uint16_t n; uint8_t ours, equal; } site[CACHE];
static uint32_t run = 1;
#define VP (1 << 18)
static uint8_t vp[VP]; static int fresh;
int guide_fresh(void) { int f = fresh; fresh = 0; return f; }
#define WORDS 2048
static uint64_t words[WORDS]; static uint32_t nwords; static uint8_t seen[1 << 16];
uint32_t guide_words(void) { return nwords < WORDS ? nwords : WORDS; }
uint64_t guide_word(uint32_t i) { return words[i]; }
static void word(uint64_t w) {
    if (w < 4) return;
    uint32_t h = (uint32_t)((w * 0x9e3779b97f4a7c15ull) >> 48);
    if (seen[h]) return;
    seen[h] = 1;
    words[nwords++ % WORDS] = w;
    if (nwords % WORDS == 0) memset(seen, 0, sizeof seen);
}
// by how much the operands differed in this run, at comparisons which never were between equals
#define PAIRS 256
static struct { uint64_t d; uint32_t s; } gap[PAIRS]; static uint32_t ngap;
void guide_gap_reset(void) { ngap = 0; run++; }
uint32_t guide_gaps(void) { return ngap; }
uint32_t guide_gap(uint32_t i, uint64_t *d) { *d = gap[i].d; return site[gap[i].s].equal ? 0 : gap[i].s + 1; }
static void note(uintptr_t pc, uint64_t a, uint64_t b, int c);
static inline __attribute__((always_inline)) void cmp(uintptr_t pc, uint64_t a, uint64_t b, int c) {
    if (!active) return;
    struct site *s = &site[(uint32_t)((pc * 0x9e3779b97f4a7c15ull) >> 48)];
    if (s->pc != pc) { s->pc = pc; s->ours = inside(pc); s->equal = 0; s->n = 0; s->run = run; }
    if (!s->ours) return;
    if (s->run != run) { s->run = run; s->n = 0; }
    if (s->n >= 48) return;
    s->n++;
    note(pc, a, b, c);
}
static __attribute__((noinline)) void note(uintptr_t pc, uint64_t a, uint64_t b, int c) {
    uint32_t d = __builtin_popcountll(a ^ b);
    uint64_t x = a > b ? a - b : b - a;
    uint32_t l = x ? 64 - __builtin_clzll(x) : 0;
    uint32_t i = (uint32_t)((pc * 0xd1342543de82ef95ull) >> 40);
    uint32_t f = (i * 131 + d) & (VP - 1), k = (i * 137 + 70 + l) & (VP - 1);
    if (!vp[f]) { vp[f] = 1; fresh = 1; }
    if (!vp[k]) { vp[k] = 1; fresh = 1; }
    uint32_t h = (uint32_t)((pc * 0x9e3779b97f4a7c15ull) >> 48);
    if (!d) { site[h].equal = 1; return; }
    word(a);
    if (!c) word(b);
    if (site[h].equal || ngap == PAIRS) return;
    for (uint32_t n = 0; n < ngap && n < 64; n++)
        if (gap[ngap - 1 - n].d == a - b && gap[ngap - 1 - n].s == h) return;
    gap[ngap].d = a - b;
    gap[ngap++].s = h;
}
#define ME ((uintptr_t)__builtin_return_address(0))
void __sanitizer_cov_trace_cmp1(uint8_t a, uint8_t b) { cmp(ME, a, b, 0); }
void __sanitizer_cov_trace_cmp2(uint16_t a, uint16_t b) { cmp(ME, a, b, 0); }
void __sanitizer_cov_trace_cmp4(uint32_t a, uint32_t b) { cmp(ME, a, b, 0); }
void __sanitizer_cov_trace_cmp8(uint64_t a, uint64_t b) { cmp(ME, a, b, 0); }
void __sanitizer_cov_trace_const_cmp1(uint8_t a, uint8_t b) { cmp(ME, a, b, 1); }
void __sanitizer_cov_trace_const_cmp2(uint16_t a, uint16_t b) { cmp(ME, a, b, 1); }
void __sanitizer_cov_trace_const_cmp4(uint32_t a, uint32_t b) { cmp(ME, a, b, 1); }
void __sanitizer_cov_trace_const_cmp8(uint64_t a, uint64_t b) { cmp(ME, a, b, 1); }
void __sanitizer_cov_trace_switch(uint64_t v, uint64_t *c) {
    if (!active) return;
    uintptr_t pc = ME;
    for (uint64_t i = 0; i < c[0]; i++) cmp(pc + i, c[2 + i], v, 1);
}
// Whether some block ran as often as never before; takes note of it. `left`: the counts not seen yet.
int guide_scan(const uint8_t *c, size_t n, uint8_t *left, size_t *reached) {
    int new = 0;
    for (size_t i = 0; i < n;) {
        uint64_t w;
        if (i + 8 <= n && (memcpy(&w, c + i, 8), !w)) { i += 8; continue; }
        for (size_t e = i + 8 < n ? i + 8 : n; i < e; i++) {
            uint8_t x = c[i];
            if (!x || !left[i]) continue;
            uint8_t b = x < 3 ? x : x < 4 ? 4 : x < 8 ? 8 : x < 16 ? 16 : x < 32 ? 32 : x < 128 ? 64 : 128;
            if (left[i] & b) {
                if (left[i] == 255) ++*reached;
                left[i] &= ~b;
                new = 1;
            }
        }
    }
    return new;
}
