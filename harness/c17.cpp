// bit utilities
#include "build.h"
static int dummy = (g_cases_quick = 200000, g_cases_thorough = 4000000, 0);
const char *rule_text() { return "all values near powers of two of every width, random values of every length; interleaving of all 16-bit pairs near powers of two and random pairs; non-trivial always"; }
void run_case(uint64_t idx, Rng &g, bool thorough)
{
    uint64_t v = g.next() >> g.below(64);
    if (g.chance(1, 2)) v = (1ull << g.below(64)) + g.range(0, 4) - 2;
    if (idx < 70) v = idx;
    uint32_t a = g.next() & 0xffff, b = g.next() & 0xffff;
    if (g.chance(1, 2)) { a = 1u << g.below(16); b = g.chance(1, 2) ? 0 : 0xffff; }
    begin_case(strf("value %llu, pair %u %u", (unsigned long long) v, a, b));
    if (v >= 1 && v <= (1ull << 63)) {
        uint64_t p = 1; while (p < v) p <<= 1;
        CHECK(next_power_of_two(v) == p, "rounding %llu up gives %llu, expected %llu", (unsigned long long) v, (unsigned long long) next_power_of_two(v), (unsigned long long) p);
    }
    auto lg = [](uint64_t x) { int r = -1; while (x) { x >>= 1; r++; } return r; };
    if (v) CHECK((int) highest_bit_set(v) == lg(v), "highest bit of %llu (64 bit): %u", (unsigned long long) v, highest_bit_set(v));
    uint32_t u = v;
    if (u) CHECK((int) highest_bit_set(u) == lg(u), "highest bit of %u (32 bit): %u", u, highest_bit_set(u));
    int64_t s = (int64_t) v;
    if (s) CHECK(highest_bit_set(s) == (s < 0 ? -1 : lg(s)), "highest bit of %lld (signed 64 bit): %lld", (long long) s, (long long) highest_bit_set(s));
    int i = (int) u;
    if (i) CHECK(highest_bit_set(i) == (i < 0 ? -1 : lg(i)), "highest bit of %d (signed 32 bit): %d", i, highest_bit_set(i));
    uint64_t z = 0;
    for (int k = 0; k < 16; k++) { z |= (uint64_t) (a >> k & 1) << (2 * k); z |= (uint64_t) (b >> k & 1) << (2 * k + 1); }
    CHECK(bit_interleave<uint32_t>(a, b) == (uint32_t) z, "interleaving %u and %u gives %u, expected %u", a, b, bit_interleave<uint32_t>(a, b), (uint32_t) z);
    CHECK(bit_interleave<uint16_t>(a, b) == (uint32_t) z, "interleaving the 16-bit numbers %u and %u gives %llu, expected %u", a, b, (unsigned long long) bit_interleave<uint16_t>(a, b), (uint32_t) z);
    count_case(true);
}
