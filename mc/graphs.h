// graphs.h: families of nonzero patterns for the ordering codes, decoded from an index
#pragma once
#include "mc.h"
#include <algorithm>
#include <cstring>
#include <functional>
#include <memory>
#include <set>
#include <string>
#include <vector>
struct Pat {                        // m-by-n pattern: row indices of each column in presentation order
    int m = 0, n = 0; std::vector<std::vector<int>> col;
    Pat() {} Pat(int m, int n) : m(m), n(n), col(n) {}
    int nz() const { int s = 0; for (auto &c : col) s += (int) c.size(); return s; }
    std::string str() const
    {
        std::string s = mc::fmt("%d-by-%d pattern:", m, n); int k = 0;
        for (int j = 0; j < n; j++) for (int i : col[j]) if (k++ < 200) s += mc::fmt(" (%d,%d)", i, j);
        return s + (k > 200 ? " ..." : "");
    }
    bool sorted() const { for (auto &c : col) for (size_t k = 1; k < c.size(); k++) if (c[k] <= c[k - 1]) return false; return true; }
    Pat clean() const { Pat p(m, n); for (int j = 0; j < n; j++) { std::set<int> s(col[j].begin(), col[j].end()); p.col[j].assign(s.begin(), s.end()); } return p; }
};
typedef std::vector<std::vector<char>> Adj;         // undirected graph without self-loops
inline Adj adj_of(const Pat &p)
{
    Adj a(p.n, std::vector<char>(p.n, 0)); for (int j = 0; j < p.n; j++) for (int i : p.col[j]) if (i != j) a[i][j] = a[j][i] = 1;
    return a;
}
inline int degree(const Adj &a, int i) { int d = 0; for (char c : a[i]) d += c; return d; }
// the factor of the graph for an elimination order: number of entries below the diagonal in each column
inline std::vector<int> colcounts(Adj a, const std::vector<int> &P)
{
    int n = (int) a.size(); std::vector<int> c(n); std::vector<char> gone(n, 0);
    for (int k = 0; k < n; k++) {
        int v = P[k]; std::vector<int> nb; gone[v] = 1; for (int u = 0; u < n; u++) if (a[v][u] && !gone[u]) nb.push_back(u);
        c[k] = (int) nb.size(); for (int x : nb) for (int y : nb) if (x != y) a[x][y] = 1;
    }
    return c;
}
struct GFam { std::string name; uint64_t n; std::function<Pat(uint64_t)> get; };

// how an undirected graph is presented as a pattern
inline Pat present(const Adj &a, int how)
{   // 0: both triangles 1: lower 2: upper 3: alternating triangle with the diagonal 4: both, with the diagonal
    int n = (int) a.size(); Pat p(n, n);
    for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) {
        bool take = i == j ? how >= 3 : a[i][j] && (how == 0 || how == 4 || (how == 1 && i > j) || (how == 2 && i < j) || (how == 3 && ((i + j) & 1 ? i > j : i < j)));
        if (take) p.col[j].push_back(i);
    }
    return p;
}
inline Adj graph_bits(int n, uint64_t bits)
{
    Adj a(n, std::vector<char>(n, 0)); int b = 0; for (int j = 0; j < n; j++) for (int i = 0; i < j; i++, b++) if (bits >> b & 1) a[i][j] = a[j][i] = 1;
    return a;
}
inline GFam all_patterns(int m, int n)
{
    return {mc::fmt("%dx%d-patterns", m, n), 1ull << (m * n), [m, n](uint64_t k) { Pat p(m, n); for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) if (k >> (j * m + i) & 1) p.col[j].push_back(i); return p; }};
}
inline GFam all_graphs(int n, int how)
{
    return {mc::fmt("graphs-%d-presented-%d", n, how), 1ull << (n * (n - 1) / 2), [n, how](uint64_t k) { return present(graph_bits(n, k), how); }};
}
// every list of at most len row indices (repetitions and every order included) in each column
inline GFam all_lists(int m, int n, int len)
{
    uint64_t per = 0; for (int l = 0; l <= len; l++) per += mc::ipow(m, l);
    return {mc::fmt("%dx%d-lists-%d", m, n, len), mc::ipow(per, n), [m, n, len, per](uint64_t k) {
        Pat p(m, n); mc::Dec d(k);
        for (int j = 0; j < n; j++) { uint64_t c = d(per); int l = 0; while (c >= mc::ipow(m, l)) { c -= mc::ipow(m, l); l++; } mc::Dec e(c); for (int t = 0; t < l; t++) p.col[j].push_back((int) e(m)); }
        return p; }};
}
inline Adj forest(int n, uint64_t k, int label)
{   // parent of node i: none or any earlier node; label: 0 as is, 1 reversed, 2 odd nodes first
    Adj a(n, std::vector<char>(n, 0)); mc::Dec d(k); std::vector<int> L(n); for (int i = 0; i < n; i++) L[i] = label == 0 ? i : label == 1 ? n - 1 - i : i & 1 ? i / 2 : n / 2 + i / 2;
    for (int i = 0; i < n; i++) { int p = (int) d(i + 1) - 1; if (p >= 0) a[L[i]][L[p]] = a[L[p]][L[i]] = 1; }
    return a;
}
inline uint64_t factorial(int n) { uint64_t f = 1; for (int i = 2; i <= n; i++) f *= i; return f; }
// graphs with structure, larger than what can be enumerated; t in [0, NSTRUCT)
enum { NSTRUCT = 14 };
inline const char *struct_name(int t)
{
    static const char *s[] = {"path", "cycle", "star", "complete", "complete bipartite", "grid", "tridiagonal + last row", "binary tree", "caterpillar", "wheel", "pairs of twins on a cycle", "chain of cliques", "banded", "hub and path"};
    return s[t];
}
inline Adj structured_graph(int t, int n)
{
    Adj a(n, std::vector<char>(n, 0)); auto e = [&](int i, int j) { if (i != j && i >= 0 && j >= 0 && i < n && j < n) a[i][j] = a[j][i] = 1; };
    int w = 1; while ((w + 1) * (w + 1) <= n) w++;
    for (int i = 0; i < n; i++) switch (t) {
        case 0: e(i, i + 1); break;
        case 1: e(i, (i + 1) % n); break;
        case 2: e(0, i); break;
        case 3: for (int j = 0; j < i; j++) e(i, j); break;
        case 4: for (int j = n / 3; j < n; j++) if (i < n / 3) e(i, j); break;
        case 5: if ((i + 1) % w) e(i, i + 1); e(i, i + w); break;
        case 6: e(i, i + 1); e(i, n - 1); break;
        case 7: if (i) e(i, (i - 1) / 2); break;
        case 8: if (i < n / 2) { if (i + 1 < n / 2) e(i, i + 1); } else e(i, i - n / 2); break;
        case 9: if (i) { e(0, i); e(i, i + 1 < n ? i + 1 : 1); } break;
        case 10: { int h = n / 2; if (i < 2 * h) { e(i, i ^ 1); int nx = (i / 2 + 1) % (h ? h : 1); e(i, 2 * nx); e(i, 2 * nx + 1); } break; }
        case 11: for (int j = i + 1; j < n && j / 4 <= i / 4; j++) e(i, j); if (i % 4 == 3) e(i, i + 1); break;
        case 12: e(i, i + 1); e(i, i + 2); e(i, i + 3); break;
        case 13: e(i, 0); e(i, n / 2); if (i & 1) e(i, i + 1); break;
    }
    return a;
}
inline Adj relabel(const Adj &a, int how)
{   // 0 as is, 1 reversed, 2 stride, 3 odd first
    int n = (int) a.size(); std::vector<int> L(n);
    int s = 1; if (how == 2) for (s = std::max(2, n / 3); ; s++) { int x = s, y = n; while (y) { int r = x % y; x = y; y = r; } if (x == 1) break; }
    for (int i = 0; i < n; i++) L[i] = how == 0 ? i : how == 1 ? n - 1 - i : how == 2 ? (int) ((long) i * s % std::max(n, 1)) : i & 1 ? i / 2 : n / 2 + i / 2;
    if (how == 3 && n % 2) for (int i = 0; i < n; i++) L[i] = i & 1 ? i / 2 : n / 2 + i / 2;
    Adj b(n, std::vector<char>(n, 0)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) b[L[i]][L[j]] = a[i][j];
    return b;
}
// every node of a small graph replaced by a clique (twins) of size 1..3, or by independent twins
inline Adj blowup(const Adj &a, const std::vector<int> &size, bool clique)
{
    std::vector<int> own; for (size_t i = 0; i < size.size(); i++) for (int k = 0; k < size[i]; k++) own.push_back((int) i);
    int n = (int) own.size(); Adj b(n, std::vector<char>(n, 0));
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j && (own[i] == own[j] ? clique : a[own[i]][own[j]])) b[i][j] = 1;
    return b;
}
// the same structures in dimensions around powers of two and beyond
inline const std::vector<int> &ladder(bool th)
{
    static const std::vector<int> q = {48, 63, 64, 65, 100, 127, 128, 129, 200, 257}, t = {48, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 400, 511, 512, 513}; return th ? t : q;
}
inline uint64_t nladder(bool th) { return NSTRUCT * 4 * ladder(th).size(); }
inline void ladder_at(uint64_t k, bool th, int &t, int &lab, int &n) { mc::Dec d(k); t = (int) d(NSTRUCT); lab = (int) d(4); n = ladder(th)[d(ladder(th).size())]; }
inline Adj laddered(uint64_t k, bool th) { int t, l, n; ladder_at(k, th, t, l, n); return relabel(structured_graph(t, n), l); }
inline std::string laddered_str(uint64_t k, bool th) { int t, l, n; ladder_at(k, th, t, l, n); return mc::fmt("%s of dimension %d, labelling %d", struct_name(t), n, l); }
// irregular graphs given by arithmetic: unions of 4-cliques, affine and quadratic maps, grids with holes
enum { NARITH = 3 };
inline const char *arith_name(int kind) { static const char *s[] = {"union of 4-cliques", "affine and quadratic maps", "grid with holes"}; return s[kind]; }
inline Adj arith_graph(int kind, int n, int a, int b)
{
    Adj g(n, std::vector<char>(n, 0)); auto e = [&](long i, long j) { i %= n; j %= n; if (i != j) g[i][j] = g[j][i] = 1; };
    if (kind == 0) for (long i = 0; i <= n / 2; i++) { long x[4] = {i * a + b, i * i + a, i * i * i + b * i, i * (a + b) + 7}; for (int p = 0; p < 4; p++) for (int q = 0; q < p; q++) e(x[p], x[q]); }
    else if (kind == 1) for (long i = 0; i < n; i++) { e(i, a * i + b); if ((i + b) % 2 == 0) e(i, a * i * i + b * i + 1); }
    else { int w = 2 + b % 6; for (long i = 0; i < n; i++) { if (i % w && (i * a + b) % 8) e(i, i - 1); if (i >= w && (i * i * a + i + b) % 8) e(i, i - w); } }
    return g;
}
inline const std::vector<int> &arith_sizes(bool th)
{
    static const std::vector<int> q = {12, 16, 17, 20, 24, 28, 33, 40, 57, 80, 120}, t = {12, 13, 14, 15, 16, 17, 18, 20, 22, 24, 26, 28, 30, 33, 36, 40, 46, 57, 64, 80, 101, 120, 150, 200}; return th ? t : q;
}
inline void arith_at(uint64_t k, bool th, int &kind, int &n, int &a, int &b) { mc::Dec d(k); kind = (int) d(NARITH); n = arith_sizes(th)[d(arith_sizes(th).size())]; a = 1 + (int) d(8); b = (int) d(8); }
inline void add_arith(bool th, const char *name, std::function<void(const Adj &, int)> f)
{
    mc::add(name, NARITH * 64 * arith_sizes(th).size(), [=](uint64_t k) { int t, n, a, b; arith_at(k, th, t, n, a, b); f(arith_graph(t, n, a, b), NSTRUCT + t + b); }, [=](uint64_t k) { int t, n, a, b; arith_at(k, th, t, n, a, b); return mc::fmt("%s of dimension %d, parameters %d %d", arith_name(t), n, a, b); });
}
inline void add_ladder(bool th, const char *name, std::function<void(const Adj &, int)> f, bool irregular = true)
{
    mc::add(name, nladder(th), [=](uint64_t k) { int t, l, n; ladder_at(k, th, t, l, n); f(laddered(k, th), t); }, [=](uint64_t k) { return laddered_str(k, th); });
    if (irregular) add_arith(th, (std::string("irregular-") + (strncmp(name, "direct", 6) ? "" : "direct-") + (strstr(name, "jumbled") ? "jumbled-" : "") + (strstr(name, "symmetric") ? "symmetric-" : "") + "graphs").c_str(), f);
}
// more nodes than 16 bits count, kept sparse
enum { NWIDE = 7, WIDE_N = 70001, WIDE_PRES = 6 };
inline const char *wide_name(int t) { static const char *s[] = {"no edges", "path", "binary tree", "caterpillar", "grid", "path with two hubs", "pairs of twins on a cycle"}; return s[t]; }
inline std::vector<std::pair<int, int>> wide_edges(int t, int lab, int n = WIDE_N)
{
    std::vector<std::pair<int, int>> E; auto L = [&](long i) { return (int) (lab == 0 ? i : lab == 1 ? n - 1 - i : i * 25013 % n); };
    auto e = [&](long i, long j) { if (i != j && i >= 0 && j >= 0 && i < n && j < n) E.push_back({L(i), L(j)}); };
    for (long i = 0; i < n; i++) switch (t) {
        case 1: e(i, i + 1); break;
        case 2: if (i) e(i, (i - 1) / 2); break;
        case 3: if (i < n / 2) { if (i + 1 < n / 2) e(i, i + 1); } else e(i, i - n / 2); break;
        case 4: if ((i + 1) % 264) e(i, i + 1); e(i, i + 264); break;
        case 5: if (i > 1) { if (i + 1 < n) e(i, i + 1); e(i, 0); e(i, 1); } break;
        case 6: { int h = n / 2; if (i < 2 * h) { if (!(i & 1)) e(i, i + 1); long nx = (i / 2 + 1) % h; e(i, 2 * nx); e(i, 2 * nx + 1); } break; }
        default: break;
    }
    return E;
}
inline Pat wide_pat(const std::vector<std::pair<int, int>> &E, int how, int n = WIDE_N)
{
    Pat p(n, n); for (auto &e : E) { int i = std::max(e.first, e.second), j = std::min(e.first, e.second); if (how == 0 || how >= 4) { p.col[j].push_back(i); p.col[i].push_back(j); } else if (how == 1 || (how == 3 && ((i + j) & 1))) p.col[j].push_back(i); else p.col[i].push_back(j); }
    for (int j = 0; j < n; j++) { auto &c = p.col[j]; if (how == 3 || how == 4) c.push_back(j); std::sort(c.begin(), c.end()); c.erase(std::unique(c.begin(), c.end()), c.end()); if (how == 5) { std::reverse(c.begin(), c.end()); size_t s = c.size(); for (size_t i = 0; i < s; i += 2) c.push_back(c[i]); } }
    return p;
}
inline void wide_at(uint64_t k, int &t, int &lab, int &how) { mc::Dec d(k); t = (int) d(NWIDE); lab = (int) d(3); how = (int) d(WIDE_PRES); }
inline std::string wide_str(uint64_t k) { int t, l, h; wide_at(k, t, l, h); return mc::fmt("%s of %d nodes, labelling %d, presentation %d", wide_name(t), WIDE_N, l, h); }
// f(pattern, edges, structure); quick: one presentation for each structure and labelling
inline void add_wide(bool th, std::function<void(const Pat &, const std::vector<std::pair<int, int>> &, int)> f)
{
    auto full = [th](uint64_t k) { return th ? k : k + NWIDE * 3 * (k % NWIDE * 5 + k / NWIDE) % (NWIDE * 3 * WIDE_PRES); };
    mc::add("beyond-16-bits", (uint64_t) NWIDE * 3 * (th ? (int) WIDE_PRES : 1), [=](uint64_t k) { k = full(k); int t, l, h; wide_at(k, t, l, h); auto E = wide_edges(t, l); f(wide_pat(E, h), E, t); }, [=](uint64_t k) { return wide_str(full(k)); });
}
// the largest number of neighbours that follow a node in the ordering: at most one in a forest without fill
inline int most_later(int n, const std::vector<std::pair<int, int>> &E, const std::vector<int> &P)
{
    std::vector<int> at(n), c(n, 0); for (int k = 0; k < n; k++) at[P[k]] = k; for (auto &e : E) c[at[e.first] < at[e.second] ? e.first : e.second]++; return n ? *std::max_element(c.begin(), c.end()) : 0;
}
