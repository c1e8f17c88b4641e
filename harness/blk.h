// block boundaries, and blocked matrices taken apart
#ifndef GSBV_BLK_H
#define GSBV_BLK_H
#include "build.h"
#include "matrix/csr.1.h"
#include "matrix/csr.2.h"
#include "matrix/csbr.h"
#include "matrix/csbr.2.h"
#include "matrix/cgbr.h"
#include "matrix/cgbr.2.h"
#include "generic/gsb.h"
#include "partition.h"
typedef std::vector<uint32_t> Bounds;
// strictly increasing boundaries 0 .. n
static Bounds bounds(Rng &g, uint32_t n, uint32_t maxblocks)
{
    std::set<uint32_t> s{0, n};
    uint32_t k = g.below(maxblocks);
    if (g.chance(1, 4)) { uint32_t b = g.range(1, n); for (uint32_t i = b; i < n && s.size() < maxblocks + 1; i += b) s.insert(i); }
    else for (uint32_t i = 0; i < k; i++) s.insert(g.below(n));
    return Bounds(s.begin(), s.end());
}
static uint32_t where(const Bounds &b, uint32_t i) { return std::upper_bound(b.begin(), b.end(), i) - b.begin() - 1; }
// entries per block, relative to it, in the given order
typedef std::map<std::pair<uint32_t, uint32_t>, std::vector<Ent>> Blocks;
static Blocks split(const Mat &m, const Bounds &ro, const Bounds &co)
{
    Blocks b;
    for (auto &e : m.e) { uint32_t i = where(ro, e.r), j = where(co, e.c); b[{i, j}].push_back({e.r - ro[i], e.c - co[j], e.v}); }
    return b;
}
static std::string show(const Bounds &b) { std::string s; for (size_t i = 0; i < b.size(); i++) { if (i == 40) { s += ".."; break; } s += strf("%s%u", i ? "," : "", b[i]); } return s; }
static void dense_shape(Rng &g, Mat &m)
{
    // some nearly full matrices, so that blocks of every kind appear
    m.rows = g.range(1, 24); m.cols = g.range(1, 24); m.e.clear();
    int fill = g.range(1, 10);
    for (uint32_t r = 0; r < m.rows; r++) for (uint32_t c = 0; c < m.cols; c++) if (g.chance(fill, 10)) m.e.push_back({r, c, rval(g)});
    for (size_t i = m.e.size(); i > 1; i--) std::swap(m.e[i - 1], m.e[g.below(i)]);
}
// few entries in a grid of more than 2^16 blocks, many of whose block numbers agree in their low bits
static void wide_grid(Rng &g, Mat &m, Bounds &RO, Bounds &CO)
{
    static const uint32_t D[] = {65536, 65536, 256, 128, 32768, 512, 1};
    uint32_t R, C, h = g.range(1, 3), w = g.range(1, 3);
    switch (g.below(4)) {
    case 0: R = 257 + g.below(80); C = 256 + g.below(4); break;
    case 1: R = g.range(1, 3); C = 65536 + g.below(2000); break;
    case 2: R = 65536 + g.below(2000); C = g.range(1, 3); break;
    default: R = 128 + g.below(100); C = 600 + g.below(100);
    }
    m.rows = R * h - g.below(h); m.cols = C * w - g.below(w); m.e.clear(); RO.clear(); CO.clear();
    for (uint32_t i = 0; i < R; i++) RO.push_back(i * h);
    for (uint32_t i = 0; i < C; i++) CO.push_back(i * w);
    RO.push_back(m.rows); CO.push_back(m.cols);
    uint64_t N = (uint64_t) R * C;
    for (int k = g.range(1, 5); k; k--) {
        uint64_t b = g.below(g.chance(1, 2) ? 1000 : N), d = D[g.below(7)];
        for (int j = g.range(1, 4); j && b < N; j--, b += d)
            for (int q = g.range(1, 3); q; q--) {
                uint32_t i = b / C, c = b % C;
                m.e.push_back({RO[i] + (uint32_t) g.below(RO[i + 1] - RO[i]), CO[c] + (uint32_t) g.below(CO[c + 1] - CO[c]), rval(g)});
            }
    }
    for (size_t i = m.e.size(); i > 1; i--) std::swap(m.e[i - 1], m.e[g.below(i)]);
}
#endif
