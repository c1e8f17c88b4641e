// builders of the repository's coordinate storages from a Mat
#ifndef GSBV_BUILD_H
#define GSBV_BUILD_H
#include "h.h"
#include "common.h"
#include "utils.h"
#include "matrix/coo.1.h"
#include "matrix/coo.2.h"
#include "matrix/coo.3.h"
typedef float T; typedef uint32_t IT; typedef uint16_t SIT;
typedef Triplet<T, IT> Tri; typedef Element<T, IT> Ele;

static inline void put(Tri &t, const Ent &e) { t.row = e.r; t.col = e.c; t.val = e.v; }
static inline void put(Ele &t, const Ent &e) { t.row = e.r; t.col = e.c; t.val = e.v; t.block = 0xdeadbeef; }
template <class N> static void fill(Buf<N> &b, const std::vector<Ent> &e) { for (size_t i = 0; i < e.size(); i++) put(b[i], e[i]); }
typedef std::multiset<std::tuple<uint32_t, uint32_t, float>> Bag;
static Bag bag(const std::vector<Ent> &e) { Bag b; for (auto &x : e) b.insert(std::make_tuple(x.r, x.c, x.v)); return b; }
template <class N> static Bag bag(const N *p, size_t n) { Bag b; for (size_t i = 0; i < n; i++) b.insert(std::make_tuple((uint32_t) p[i].row, (uint32_t) p[i].col, p[i].val)); return b; }
// leak check: an operation that leaks leaves memory behind every time it is
// repeated; what the runtime keeps for itself (thread pools) it keeps once
template <class F> static void no_leak(const char *what, F f)
{
    f();
    long least = 0;
    for (int i = 0; i < 12; i++) {
        long b = live_bytes();
        f();
        long d = live_bytes() - b;
        if (i == 0 || d < least) least = d;
        if (least <= 0) return;
    }
    failf("%s: %ld bytes are never released", what, least);
}
#endif
