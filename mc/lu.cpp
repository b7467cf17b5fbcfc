#include "lu.h"
namespace lu {
std::string cfgstr(const Cfg &c) { SLIP_options o = opt(c); return optstr(&o); }
const std::vector<Cfg> &configs(int level)
{
    static std::vector<Cfg> all, some;
    if (all.empty()) {
        for (int p = 0; p < 6; p++) for (int o = 0; o < 3; o++) {
            if (p == SLIP_TOL_SMALLEST || p == SLIP_TOL_LARGEST) { for (double t : {1.0, 0.5, 0.1}) all.push_back({p, o, t}); }
            else all.push_back({p, o, 1.0});
        }
        for (int p : {3, 0, 1, 2, 4, 5}) some.push_back({p, 0, p == 3 || p == 4 ? 0.5 : 1.0});
        some.push_back({3, 1, 1.0}); some.push_back({5, 1, 1.0}); some.push_back({1, 2, 1.0}); some.push_back({4, 2, 0.1}); some.push_back({0, 2, 1.0});
    }
    return level == 0 ? all : some;
}
std::vector<Cfg> configs_for(int level, uint64_t idx)
{
    if (level < 2) return configs(level);
    std::vector<Cfg> c; const auto &a = configs(0);
    c.push_back({3, 1, 1.0});
    c.push_back(a[idx % a.size()]);
    return c;
}
Z generic(int i, int j, int n, int seed)
{
    static const int pr[] = {3, -7, 11, 5, -13, 17, -2, 19, 23, -29, 31, 9, -37, 4, 41, -43, 8, 47, -53, 59, -61, 6, 67, 71, -73};
    return Z(pr[(i * 7 + j * 3 + i * j * 5 + seed * 11 + n) % 25] + (seed > 1 ? seed : 0) * (i + 2 * j));
}
Spec with_values(const Spec &s, int seed)
{
    Spec t = s; for (auto &e : t.e) e.v = generic(e.i, e.j, s.n, seed); return t;
}
static std::vector<Z> bigs()
{
    std::vector<Z> v; v.push_back(Z(1)); v.push_back(Z(-2)); v.push_back(Z::pow(2, 31)); v.push_back(-Z::pow(2, 63));
    v.push_back(Z::pow(2, 64) + Z(1)); v.push_back(Z::pow(10, 40)); v.push_back(-Z::pow(10, 40) - Z(1)); v.push_back(Z::pow(2, 320) - Z(1)); return v;
}
// subsets of size <= k out of n, by index
static uint64_t binom(int n, int k) { uint64_t r = 1; for (int i = 0; i < k; i++) r = r * (n - i) / (i + 1); return r; }
static uint64_t nsub(int n, int k) { uint64_t s = 0; for (int i = 0; i <= k; i++) s += binom(n, i); return s; }
static std::vector<int> subset(int n, int kmax, uint64_t idx)
{
    int k = 0; while (k <= kmax && idx >= binom(n, k)) { idx -= binom(n, k); k++; }
    std::vector<int> r; int x = 0;
    for (int need = k; need > 0; x++) { uint64_t c = binom(n - x - 1, need - 1); if (idx < c) { r.push_back(x); need--; } else idx -= c; }
    return r;
}
static std::vector<int> nth_perm(int n, uint64_t idx)
{
    std::vector<int> a(n), r; for (int i = 0; i < n; i++) a[i] = i;
    uint64_t f = 1; for (int i = 2; i < n; i++) f *= i;
    for (int i = n - 1; i >= 0; i--) { int k = (int) (idx / f); idx %= f; r.push_back(a[k]); a.erase(a.begin() + k); if (i) f /= i; }
    return r;
}
static uint64_t fact(int n) { uint64_t f = 1; for (int i = 2; i <= n; i++) f *= i; return f; }
// entries of every cell from an alphabet; letter 'absent' = std::nullopt encoded by -1 index 0
static Spec cells(int n, uint64_t idx, const std::vector<Z> &alpha, bool absent_first, int orderk)
{
    Spec s; s.m = s.n = n; mc::Dec d(idx);
    std::vector<std::vector<Entry>> col(n);
    for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) {
        uint64_t k = d(alpha.size() + (absent_first ? 1 : 0));
        if (absent_first) { if (!k) continue; k--; }
        col[j].push_back(Entry{i, j, alpha[k]});
    }
    for (int j = 0; j < n; j++) {
        if (orderk == 1 || (orderk == 2 && (j & 1))) std::reverse(col[j].begin(), col[j].end());
        if (orderk == 3 && col[j].size() > 1) std::rotate(col[j].begin(), col[j].begin() + 1, col[j].end());
        for (auto &e : col[j]) s.e.push_back(e);
    }
    return s;
}
static Spec from_mat(const std::vector<std::vector<int>> &pat, int n, int seed)
{
    Spec s; s.m = s.n = n;
    for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) if (pat[i][j]) s.e.push_back(Entry{i, j, pat[i][j] == 1 ? generic(i, j, n, seed) : Z(pat[i][j])});
    return s;
}
static Spec structured(int n, int shape, int seed)
{
    std::vector<std::vector<int>> p(n, std::vector<int>(n, 0));
    for (int i = 0; i < n; i++) p[i][i] = 1;
    switch (shape) {
    case 0: for (int i = 0; i + 1 < n; i++) p[i][i + 1] = p[i + 1][i] = 1; break;               // tridiagonal
    case 1: for (int i = 0; i < n; i++) p[0][i] = p[i][0] = 1; break;                           // arrow, dense first
    case 2: for (int i = 0; i < n; i++) p[n - 1][i] = p[i][n - 1] = 1; break;                   // arrow, dense last
    case 3: for (int i = 0; i < n; i++) p[i][(i + 1) % n] = 1; break;                           // cycle
    case 4: for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) p[i][j] = 1; break;        // lower triangular
    case 5: for (int i = 0; i < n; i++) for (int j = i; j < n; j++) p[i][j] = 1; break;         // upper triangular
    case 6: for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) p[i][j] = 1; break;         // dense
    case 7: for (int i = 0; i < n; i++) { p[i][i] = 0; p[i][n - 1 - i] = 1; if (i) p[i][n - i] = 1; } break;   // antidiagonal, lower
    case 8: for (int i = 0; i < n; i++) { p[i][i] = 0; p[i][(i + 1) % n] = 1; p[i][(i + 3) % n] = 1; } break; // no diagonal
    case 9: for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if ((i < n / 2) == (j < n / 2)) p[i][j] = 1; break;  // two blocks
    case 10: for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i <= j + 1) p[i][j] = 1; break;   // Hessenberg
    case 11: for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i + j >= n - 1) p[i][j] = 1; break; // anti-triangular
    case 12: for (int i = 0; i < n; i++) { p[i][(i * 3 + 1) % n] = 1; p[(i * 5 + 2) % n][i] = 1; } break;
    case 13: for (int i = 0; i < n; i++) { p[i][n - 1] = 1; if (i + 2 < n) p[i + 2][i] = 1; } break;
    }
    return from_mat(p, n, seed);
}
static const int NSHAPE = 14;
// dimensions beyond the enumerated ones: sparse shapes, dense ones as bands or blocks; variant 2 and 3 are singular
static const int LDIM[] = {20, 24, 31, 32, 33, 40, 48, 64, 65, 100, 127, 128, 129, 200, 257};
static Spec large(int n, int shape, int variant)
{
    Spec s; int w = n <= 33 ? n : 4;
    if (shape == 6 || (n <= 33 && shape != 9)) s = structured(n, shape, variant);
    else {
        std::vector<std::vector<int>> p(n, std::vector<int>(n, 0)); for (int i = 0; i < n; i++) p[i][i] = 1;
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
            bool in = false;
            switch (shape) {
            case 4: in = j <= i && i - j < w; break;
            case 5: in = i <= j && j - i < w; break;
            case 9: in = i / 5 == j / 5; break;
            case 10: in = i <= j + 1 && j - i < w; break;
            case 11: in = i + j >= n - 1 && i + j < n - 1 + w; break;
            default: break;
            }
            if (in) p[i][j] = 1;
        }
        if (shape == 11) for (int i = 0; i < n; i++) p[i][i] = i + i >= n - 1 && i + i < n - 1 + w;
        if (shape == 4 || shape == 5 || shape == 9 || shape == 10 || shape == 11) s = from_mat(p, n, variant); else s = structured(n, shape, variant);
    }
    if (variant >= 2) {     // the last column becomes the sum of two others: zero everywhere but there
        std::vector<Entry> e; std::vector<Z> c(n); int a = variant == 2 ? 0 : n / 2, b = n / 2 - 1;
        for (auto &x : s.e) { if (x.j == a) c[x.i] = c[x.i] + x.v; if (x.j == b) c[x.i] = c[x.i] + x.v * Z(3); if (x.j < n - 1) e.push_back(x); }
        for (int i = n - 1; i >= 0; i--) if (c[i].sgn()) e.push_back(Entry{i, n - 1, c[i]});
        s.e = e;
    }
    return s;
}

std::vector<Fam> families(bool th)
{
    std::vector<Fam> F;
    auto zs = [](std::vector<long> v) { std::vector<Z> r; for (long x : v) r.push_back(Z(x)); return r; };
    auto B = std::make_shared<std::vector<Z>>(bigs());
    {
        auto a = std::make_shared<std::vector<Z>>(zs({0, 1, -1, 2, -3})); for (auto &b : *B) a->push_back(b);
        F.push_back({"1x1", a->size() + 1, 0, [a](uint64_t i) { return cells(1, i, *a, true, 0); }});
    }
    {
        auto a = std::make_shared<std::vector<Z>>(zs({0, 1, -1, 2, -2, 3}));
        F.push_back({"2x2", 2401 * 2, 0, [a](uint64_t i) { return cells(2, i / 2, *a, true, (int) (i & 1)); }});
        F.push_back({"2x2-magnitudes", 4096, 0, [B](uint64_t i) { return cells(2, i, *B, false, 0); }});
    }
    {
        auto a = std::make_shared<std::vector<Z>>(zs({1, -1}));
        F.push_back({"3x3-signs", 19683, 0, [a](uint64_t i) { return cells(3, i, *a, true, 0); }});
        auto a2 = std::make_shared<std::vector<Z>>(zs({1, -2}));
        F.push_back({"3x3-halves", 19683, 1, [a2](uint64_t i) { return cells(3, i, *a2, true, 1); }});
        auto a3 = std::make_shared<std::vector<Z>>(zs({0, 1}));
        F.push_back({"3x3-explicit-zeros", 19683, 1, [a3](uint64_t i) { return cells(3, i, *a3, true, 3); }});
        if (th) {
            auto a4 = std::make_shared<std::vector<Z>>(zs({1, -1, 2}));
            F.push_back({"3x3-wide", 262144, 0, [a4](uint64_t i) { return cells(3, i, *a4, true, (int) (i & 3)); }});
        }
    }
    {   // presentation order: every pattern of 3x3, every order of every column
        F.push_back({"3x3-presentations", 512 * 27, 1, [](uint64_t i) {
            mc::Dec d(i); uint64_t pat = d(512); int o[3]; for (int &x : o) x = (int) d(3);
            Spec s; s.m = s.n = 3;
            for (int j = 0; j < 3; j++) {
                std::vector<Entry> c; for (int r = 0; r < 3; r++) if (pat >> (3 * j + r) & 1) c.push_back(Entry{r, j, generic(r, j, 3)});
                if (o[j] == 1) std::reverse(c.begin(), c.end());
                if (o[j] == 2 && c.size() > 1) std::rotate(c.begin(), c.begin() + 1, c.end());
                for (auto &e : c) s.e.push_back(e);
            }
            return s; }});
    }
    {
        auto one = std::make_shared<std::vector<Z>>(zs({1}));
        F.push_back({"4x4-bits", 65536, 1, [one](uint64_t i) { return cells(4, i, *one, true, (int) (i % 4)); }});
        F.push_back({"4x4-patterns", 65536, th ? 0 : 2, [](uint64_t i) {
            Spec s; s.m = s.n = 4; for (int j = 0; j < 4; j++) for (int r = 0; r < 4; r++) if (i >> (4 * j + r) & 1) s.e.push_back(Entry{r, j, generic(r, j, 4, 1)}); return s; }});
        if (th) {
            auto a = std::make_shared<std::vector<Z>>(zs({1, -1}));
            // every 4x4 sign matrix whose first row is nonnegative (column signs only flip signs of a column)
            F.push_back({"4x4-signs", mc::ipow(2, 4) * mc::ipow(3, 12), 2, [a](uint64_t i) {
                Spec s; s.m = s.n = 4; mc::Dec d(i);
                for (int j = 0; j < 4; j++) for (int r = 0; r < 4; r++) {
                    uint64_t k = d(r == 0 ? 2 : 3); if (k) s.e.push_back(Entry{r, j, Z(k == 1 ? 1 : -1)});
                }
                return s; }});
        }
    }
    {   // 5x5: nonzero diagonal plus few off-diagonals
        int k = th ? 6 : 4;
        F.push_back({mc::fmt("5x5-diagonal-plus-%d", k), nsub(20, k), 1, [k](uint64_t i) {
            std::vector<std::vector<int>> p(5, std::vector<int>(5, 0)); for (int a = 0; a < 5; a++) p[a][a] = 1;
            for (int c : subset(20, k, i)) { int r = c / 4, q = c % 4; p[r][q < r ? q : q + 1] = 1; }
            return from_mat(p, 5, (int) (i % 3)); }});
        int k2 = th ? 4 : 2;
        F.push_back({mc::fmt("5x5-permutation-plus-%d", k2), fact(5) * nsub(20, k2), th ? 1 : 2, [k2](uint64_t i) {
            uint64_t ns = nsub(20, k2); auto pm = nth_perm(5, i / ns); std::vector<std::vector<int>> p(5, std::vector<int>(5, 0));
            for (int a = 0; a < 5; a++) p[a][pm[a]] = 1;
            for (int c : subset(20, k2, i % ns)) { int r = c / 4, q = c % 4; p[r][q < pm[r] ? q : q + 1] = 1; }
            return from_mat(p, 5, 1); }});
        if (th) F.push_back({"5x5-all-patterns", 1u << 25, 3, [](uint64_t i) {
            Spec s; s.m = s.n = 5; for (int j = 0; j < 5; j++) for (int r = 0; r < 5; r++) if (i >> (5 * j + r) & 1) s.e.push_back(Entry{r, j, generic(r, j, 5, 1)}); return s; }});
    }
    // structured, larger
    F.push_back({"structured", (uint64_t) NSHAPE * 12 * 4, 1, [](uint64_t i) {
        mc::Dec d(i); int sh = (int) d(NSHAPE), sd = (int) d(4), n = 5 + (int) d(12); return structured(n, sh, sd); }});
    {   // much larger: dense shapes only while they stay cheap
        auto ix = std::make_shared<std::vector<std::array<int, 3>>>();
        for (int n : LDIM) for (int sh = 0; sh < NSHAPE; sh++) for (int v = 0; v < 4; v++) {
            if (sh == 6 && n > (th ? 65 : 40)) continue;
            if (!th && n > 129) continue;
            ix->push_back({n, sh, v});
        }
        F.push_back({"large-structured", ix->size(), 2, [ix](uint64_t i) { auto &t = (*ix)[i]; return large(t[0], t[1], t[2]); }});
    }
    {   // irregular sparse patterns given by arithmetic, with generic or with small values (exact cancellation, singular matrices)
        auto N = std::make_shared<std::vector<int>>(th ? std::vector<int>{7, 8, 9, 10, 11, 12, 14, 16, 17, 20, 24, 28, 33, 40, 57, 80} : std::vector<int>{8, 11, 14, 17, 20, 28, 40});
        F.push_back({"irregular", 4 * 64 * 2 * N->size(), 1, [N](uint64_t i) {
            mc::Dec d(i); int kind = (int) d(4), n = (*N)[d(N->size())], small = (int) d(2), a = 1 + (int) d(8), b = (int) d(8);
            std::vector<std::vector<int>> p(n, std::vector<int>(n, 0)); auto e = [&](long r, long c) { r %= n; c %= n; p[r][c] = small ? (int) ((r * a + c * (b + 1) + r * c) % 5) - 2 : 1; if (small && p[r][c] >= 0) p[r][c]++; if (small && p[r][c] == 1) p[r][c] = 5; };
            if (kind == 0) for (long k = 0; k < n; k++) { e(k, a * k + b); e(k * k + b, k); if (k % 3 == 0) e(k * k * k + a, k + b); }                 // maps, nothing on the diagonal in particular
            else if (kind == 1) for (long k = 0; k < n; k++) { e(k, k); e(k * a + b, k); if ((k + b) % 2) e(k, k * k + a); }                      // with a diagonal
            else if (kind == 2) for (long k = 0; k <= n / 3; k++) { long x[3] = {k * a + b, k * k + a, k * k * k + b * k}; for (long u : x) for (long v : x) e(u, v); for (long u = 0; u < n; u++) if ((u * a + k) % 7 == 0) e(u, u); } // unions of small blocks
            else for (long k = 0; k < n; k++) { e(k, (k * a + b) % (k + 1)); e(n - 1 - k, n - 1 - k); if (k % 4 == b % 4) for (long u = 0; u < n; u += a + 2) e(u, k); }       // trees and a few long columns
            return from_mat(p, n, (int) (a + b) % 4); }});
    }
    {   // entries of thousands of bits
        auto H = std::make_shared<std::vector<Z>>(); for (auto &z : {Z(1), Z::pow(2, 3000) - Z(1), -Z::pow(10, 1000), Z::pow(3, 700), Z(-5), Z::pow(2, 1024)}) H->push_back(z);
        F.push_back({"huge-magnitudes", 6 * 64, 2, [H](uint64_t i) {
            mc::Dec d(i); int n = 2 + (int) d(6), sd = (int) d(64); Spec s; s.m = s.n = n;
            for (int j = 0; j < n; j++) for (int a = 0; a < n; a++) if ((a * 3 + j * 5 + sd) % 4 || a == j) s.e.push_back(Entry{a, j, (*H)[(a * 5 + j * 3 + a * j + sd) % 6] * generic(a, j, n, sd % 4)});
            return s; }});
    }
    {   // chords on a path: every pair of extra entries
        int n = th ? 8 : 6; int cells2 = n * n;
        F.push_back({mc::fmt("path-%d-plus-2", n), nsub(cells2, 2), 1, [n, cells2](uint64_t i) {
            std::vector<std::vector<int>> p(n, std::vector<int>(n, 0)); for (int a = 0; a < n; a++) { p[a][a] = 1; if (a) p[a][a - 1] = 1; }
            for (int c : subset(cells2, 2, i)) p[c / n][c % n] = !p[c / n][c % n];
            return from_mat(p, n, 2); }});
    }
    F.push_back({"permutation-matrices-6", fact(6), 0, [](uint64_t i) { Spec s; s.m = s.n = 6; auto p = nth_perm(6, i); for (int j = 0; j < 6; j++) s.e.push_back(Entry{p[j], j, Z(j & 1 ? -1 : 2)}); return s; }});
    {   // determinant -1, 0, 1 and +-large with huge entries, embedded in 2x2 .. 4x4
        F.push_back({"near-singular", 8 * 3 * 3 * 6, 0, [B](uint64_t i) {
            mc::Dec d(i); Z x = (*B)[d(8)]; int delta = (int) d(3) - 1, n = 2 + (int) d(3); uint64_t mode = d(6);
            // [[x, x+1],[x-1, x]] has determinant 1; adding delta*? shifts it: [[x, x+1],[x-1, x + (delta-1)/x]] is not integral, so scale
            Spec s; s.m = s.n = n; Mat M = ref::zeros(n, n);
            M[0][0] = x; M[0][1] = x + Z(1); M[1][0] = x - Z(1); M[1][1] = x;
            if (delta == 0) { M[1][0] = x * Z(3); M[1][1] = (x + Z(1)) * Z(3); }
            if (delta == -1) { std::swap(M[0], M[1]); }
            for (int k = 2; k < n; k++) { M[k][k] = (*B)[(k + mode) % 8]; if (mode & 1) M[k][0] = x; if (mode & 2) M[0][k] = Z(5); if (mode == 4) { M[k][k] = Z(0); M[k][k - 1] = Z(1); M[k - 1][k] = x; } if (mode == 5) for (int c = 0; c < n; c++) M[k][c] = M[0][c] * Z(2) - M[1][c] + Z(c == k ? delta : 0); }
            for (int j = 0; j < n; j++) for (int r = 0; r < n; r++) if (M[r][j].sgn()) s.e.push_back(Entry{r, j, M[r][j]});
            return s; }});
        // low rank: sum of r outer products
        F.push_back({"low-rank", 4 * 3 * 64, 1, [](uint64_t i) {
            mc::Dec d(i); int n = 3 + (int) d(4), r = 1 + (int) d(3), sd = (int) d(64);
            Mat M = ref::zeros(n, n);
            for (int k = 0; k < r; k++) for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) M[a][b] = M[a][b] + Z((a * 5 + k * 3 + sd) % 7 - 3) * Z((b * 3 + k * 5 + sd / 2) % 5 - 2);
            Spec s; s.m = s.n = n; for (int j = 0; j < n; j++) for (int a = 0; a < n; a++) if (M[a][j].sgn()) s.e.push_back(Entry{a, j, M[a][j]});
            return s; }});
        F.push_back({"dense-magnitudes", 6 * 64, 1, [B](uint64_t i) {
            mc::Dec d(i); int n = 3 + (int) d(6), sd = (int) d(64); Spec s; s.m = s.n = n;
            for (int j = 0; j < n; j++) for (int a = 0; a < n; a++) if ((a * 3 + j * 5 + sd) % 4 || a == j) s.e.push_back(Entry{a, j, (*B)[(a * 5 + j * 3 + a * j + sd) % 8] * generic(a, j, n, sd % 4)});
            return s; }});
    }
    return F;
}
Mat rhs(int n)
{
    std::vector<std::vector<Z>> cols;
    std::vector<Z> g(n); for (int i = 0; i < n; i++) g[i] = Z((i % 2 ? -1 : 1) * (3 + 4 * i));
    cols.push_back(g);
    if (n <= 3) { for (int m = 0; m < (1 << n); m++) { std::vector<Z> c(n); for (int i = 0; i < n; i++) c[i] = Z(m >> i & 1); cols.push_back(c); } }
    else {
        cols.push_back(std::vector<Z>(n));
        for (int k = 0; n > 16 && k < n; k += n / 3) { std::vector<Z> c(n); c[k] = Z(7); cols.push_back(c); }
        for (int k = 0; n <= 16 && k < n; k++) { if (n > 8 && k % 3 && k != n - 1) continue; std::vector<Z> c(n); c[k] = Z(1); if (n > 5 && k + 2 < n) c[k + 2] = Z(-2); cols.push_back(c); }
        std::vector<Z> c(n); c[0] = Z(1); c[n - 1] = Z::pow(10, 30); cols.push_back(c);
    }
    Mat B = ref::zeros(n, (int) cols.size());
    for (size_t j = 0; j < cols.size(); j++) for (int i = 0; i < n; i++) B[i][j] = cols[j][i];
    return B;
}
SLIP_LU_analysis *make_S(const std::vector<int64_t> &q, int64_t lnz, int64_t unz)
{
    SLIP_LU_analysis *S = (SLIP_LU_analysis *) SLIP_malloc(sizeof(SLIP_LU_analysis)); REQ(S, "SLIP_malloc refused");
    S->q = (int64_t *) SLIP_malloc((q.size() + 1) * 8); REQ(S->q, "SLIP_malloc refused");
    for (size_t i = 0; i < q.size(); i++) S->q[i] = q[i];
    S->q[q.size()] = (int64_t) q.size(); S->lnz = lnz; S->unz = unz; return S;
}
static std::string is_perm(const int64_t *p, int n, const char *what)
{
    std::vector<char> s(n, 0);
    for (int i = 0; i < n; i++) { if (p[i] < 0 || p[i] >= n || s[p[i]]) return mc::fmt("the %s is not a permutation", what); s[p[i]] = 1; }
    return "";
}
static Mat permuted(const Mat &A, int n, const int64_t *q, const int64_t *pinv)
{
    Mat M = ref::zeros(n, n); for (int i = 0; i < n; i++) for (int k = 0; k < n; k++) M[pinv[i]][k] = A[i][q[k]]; return M;
}
std::string check_factors(const Mat &A, int n, const int64_t *q, const Fac &f)
{
    std::string e = is_perm(f.pinv, n, "row permutation"); if (!e.empty()) return e;
    e = is_perm(q, n, "column permutation"); if (!e.empty()) return e;
    if (!(e = valid(f.L)).empty()) return "L: " + e;
    if (!(e = valid(f.U)).empty()) return "U: " + e;
    if (!(e = valid(f.rhos)).empty()) return "pivots: " + e;
    if (f.L->m != n || f.L->n != n || f.U->m != n || f.U->n != n || f.L->kind != SLIP_CSC || f.U->kind != SLIP_CSC || f.L->type != SLIP_MPZ || f.U->type != SLIP_MPZ) return "L or U has the wrong shape, kind or type";
    if (f.rhos->m != n || f.rhos->n != 1 || f.rhos->kind != SLIP_DENSE || f.rhos->type != SLIP_MPZ) return "the pivots have the wrong shape, kind or type";
    Mat F = ref::minors(permuted(A, n, q, f.pinv));
    Mat L = ref::zeros(n, n), U = ref::zeros(n, n);
    for (int j = 0; j < n; j++) for (int64_t p = f.L->p[j]; p < f.L->p[j + 1]; p++) { int64_t i = f.L->i[p]; if (i < j) return "L has an entry above the diagonal"; L[i][j] = Z(f.L->x.mpz[p]); }
    for (int j = 0; j < n; j++) for (int64_t p = f.U->p[j]; p < f.U->p[j + 1]; p++) { int64_t i = f.U->i[p]; if (i > j) return "U has an entry below the diagonal"; U[i][j] = Z(f.U->x.mpz[p]); }
    for (int k = 0; k < n; k++) {
        Z r(f.rhos->x.mpz[k]);
        if (r.sgn() == 0) return mc::fmt("pivot %d is zero", k);
        if (r != F[k][k]) return mc::fmt("pivot %d is %s, the leading minor is %s", k, r.str().c_str(), F[k][k].str().c_str());
        if (r != L[k][k]) return mc::fmt("L(%d,%d) is %s but the pivot is %s", k, k, L[k][k].str().c_str(), r.str().c_str());
        if (r != U[k][k]) return mc::fmt("U(%d,%d) is %s but the pivot is %s", k, k, U[k][k].str().c_str(), r.str().c_str());
        for (int i = k + 1; i < n; i++) {
            if (L[i][k] != F[i][k]) return mc::fmt("L(%d,%d) is %s, the minor is %s", i, k, L[i][k].str().c_str(), F[i][k].str().c_str());
            if (U[k][i] != F[k][i]) return mc::fmt("U(%d,%d) is %s, the minor is %s", k, i, U[k][i].str().c_str(), F[k][i].str().c_str());
        }
    }
    return "";
}
std::string check_pivots(const Mat &A, int n, const int64_t *q, const Fac &f, const SLIP_options *o)
{
    std::string e = is_perm(f.pinv, n, "row permutation"); if (!e.empty()) return e;
    Mat F = ref::minors(permuted(A, n, q, f.pinv));
    for (int k = 0; k < n; k++) {
        const Z piv = F[k][k].abs();
        if (piv.sgn() == 0) return mc::fmt("step %d: the pivot is zero", k);
        Z lo = piv, hi = piv;
        for (int i = k; i < n; i++) { Z a = F[i][k].abs(); if (a.sgn() && a < lo) lo = a; if (hi < a) hi = a; }
        int64_t drow = f.pinv[q[k]];            // where the row of the diagonal entry went
        bool dcand = drow >= k && F[drow][k].sgn() != 0; Z dv = dcand ? F[drow][k].abs() : Z(0);
        bool isdiag = drow == k;
        auto bad = [&](const char *why) { return mc::fmt("step %d (column %lld): chose a pivot of magnitude %s in row position %d; least %s, greatest %s, diagonal %s: %s", k, (long long) q[k], piv.str().c_str(), k, lo.str().c_str(), hi.str().c_str(), dcand ? dv.str().c_str() : "not a candidate", why); };
        Q tol(o->tol);
        switch (o->pivot) {
        case SLIP_SMALLEST: if (piv != lo) return bad("not the least"); break;
        case SLIP_LARGEST: if (piv != hi) return bad("not the greatest"); break;
        case SLIP_DIAGONAL: if (dcand ? !isdiag : piv != lo) return bad("neither the diagonal nor, without one, the least"); break;
        case SLIP_FIRST_NONZERO: break;
        case SLIP_TOL_SMALLEST: {
            bool want = dcand && tol <= Q(lo, dv);
            if (want ? !isdiag : piv != lo || (isdiag && dcand && !(dv == lo))) return bad("tolerance rule for the least");
        } break;
        case SLIP_TOL_LARGEST: {
            bool want = dcand && tol <= Q(dv, hi);
            if (want ? !isdiag : piv != hi) return bad("tolerance rule for the greatest");
        } break;
        }
    }
    return "";
}
std::string check_solution(const SLIP_matrix *x, const Mat &X, const Z &det, const Q &factor, int n, int nb)
{
    if (!x) return "no solution";
    std::string e = valid(x); if (!e.empty()) return "the solution is malformed: " + e;
    if (x->kind != SLIP_DENSE || x->type != SLIP_MPQ || x->m != n || x->n != nb) return "the solution has the wrong shape, kind or type";
    for (int j = 0; j < nb; j++) for (int i = 0; i < n; i++) {
        Q want = Q(X[i][j], det) * factor;
        if (!ref::eq(x->x.mpq[i + (int64_t) j * n], want)) return mc::fmt("x(%d) of right-hand side %d is %s, exact value %s", i, j, Q(x->x.mpq[i + (int64_t) j * n]).str().c_str(), want.str().c_str());
    }
    return "";
}
}
