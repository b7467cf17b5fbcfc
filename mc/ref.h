// ref.h: reference arithmetic and reference linear algebra, independent of SLIP_LU.
// Every operation on Z and Q runs with its own GMP memory functions, so the objects are
// invisible to the library under test and to the fault injector.
#pragma once
#include <gmp.h>
#include <vector>
#include <string>
#include <cstdint>
#include <cstdlib>
#include <cstring>

namespace ref {
// a pool, so that reference arithmetic does not go through the instrumented allocator
struct Pool { void *fr[65]; char *cur, *end; };
inline Pool &pool() { static Pool p; return p; }
inline void *r_alloc(size_t n)
{
    if (n > 1024) { void *p = malloc(n); if (!p) abort(); return p; }
    Pool &P = pool(); size_t c = (n + 15) / 16; if (!c) c = 1;
    if (P.fr[c]) { void *p = P.fr[c]; P.fr[c] = *(void **) p; return p; }
    if (P.cur + 16 * c > P.end) { P.cur = (char *) malloc(1 << 20); if (!P.cur) abort(); P.end = P.cur + (1 << 20); }
    void *p = P.cur; P.cur += 16 * c; return p;
}
inline void r_free(void *p, size_t n)
{
    if (n > 1024) { free(p); return; }
    Pool &P = pool(); size_t c = (n + 15) / 16; if (!c) c = 1;
    *(void **) p = P.fr[c]; P.fr[c] = p;
}
inline void *r_realloc(void *p, size_t o, size_t n)
{
    if ((o + 15) / 16 == (n + 15) / 16 && n <= 1024 && o) return p;
    void *q = r_alloc(n); memcpy(q, p, o < n ? o : n); r_free(p, o); return q;
}
struct Mode {   // switch GMP to the reference allocator for the lifetime of the object
    void *(*a)(size_t); void *(*r)(void *, size_t, size_t); void (*f)(void *, size_t);
    Mode() { mp_get_memory_functions(&a, &r, &f); mp_set_memory_functions(r_alloc, r_realloc, r_free); }
    ~Mode() { mp_set_memory_functions(a, r, f); }
};

struct Z {
    mpz_t v;
    Z() { Mode m; mpz_init(v); }
    Z(int x) { Mode m; mpz_init_set_si(v, x); }
    Z(long x) { Mode m; mpz_init_set_si(v, x); }
    Z(const Z &o) { Mode m; mpz_init_set(v, o.v); }
    Z(Z &&o) noexcept { memcpy(v, o.v, sizeof v); Mode m; mpz_init(o.v); }
    explicit Z(const mpz_t o) { Mode m; mpz_init_set(v, o); }
    explicit Z(const char *s) { Mode m; mpz_init_set_str(v, s, 10); }
    ~Z() { Mode m; mpz_clear(v); }
    Z &operator=(const Z &o) { Mode m; mpz_set(v, o.v); return *this; }
    Z &operator=(Z &&o) noexcept { mpz_swap(v, o.v); return *this; }
    Z operator*(const Z &o) const { Z r; Mode m; mpz_mul(r.v, v, o.v); return r; }
    Z operator+(const Z &o) const { Z r; Mode m; mpz_add(r.v, v, o.v); return r; }
    Z operator-(const Z &o) const { Z r; Mode m; mpz_sub(r.v, v, o.v); return r; }
    Z operator-() const { Z r; Mode m; mpz_neg(r.v, v); return r; }
    Z operator/(const Z &o) const { Z r; Mode m; mpz_tdiv_q(r.v, v, o.v); return r; }
    Z exact(const Z &o) const { Z r; Mode m; mpz_divexact(r.v, v, o.v); return r; }
    bool operator==(const Z &o) const { return mpz_cmp(v, o.v) == 0; }
    bool operator!=(const Z &o) const { return mpz_cmp(v, o.v) != 0; }
    bool operator<(const Z &o) const { return mpz_cmp(v, o.v) < 0; }
    int sgn() const { return mpz_sgn(v); }
    Z abs() const { Z r; Mode m; mpz_abs(r.v, v); return r; }
    std::string str() const { Mode m; std::string t(mpz_sizeinbase(v, 10) + 3, 0); mpz_get_str(&t[0], 10, v); t.resize(strlen(t.c_str())); return t; }
    static Z pow(unsigned long b, unsigned long e) { Z r; Mode m; mpz_ui_pow_ui(r.v, b, e); return r; }
    static Z gcd(const Z &a, const Z &b) { Z r; Mode m; mpz_gcd(r.v, a.v, b.v); return r; }
};
struct Q {
    mpq_t v;
    Q() { Mode m; mpq_init(v); }
    Q(int x) { Mode m; mpq_init(v); mpq_set_si(v, x, 1); }
    Q(long x) { Mode m; mpq_init(v); mpq_set_si(v, x, 1); }
    Q(long n, unsigned long d) { Mode m; mpq_init(v); mpq_set_si(v, n, d); mpq_canonicalize(v); }
    Q(const Z &n, const Z &d) { Mode m; mpq_init(v); mpz_set(mpq_numref(v), n.v); mpz_set(mpq_denref(v), d.v); mpq_canonicalize(v); }
    explicit Q(const mpq_t o) { Mode m; mpq_init(v); mpq_set(v, o); }
    explicit Q(double d) { Mode m; mpq_init(v); mpq_set_d(v, d); }
    Q(const Q &o) { Mode m; mpq_init(v); mpq_set(v, o.v); }
    Q(Q &&o) noexcept { Mode m; mpq_init(v); mpq_swap(v, o.v); }
    ~Q() { Mode m; mpq_clear(v); }
    Q &operator=(const Q &o) { Mode m; mpq_set(v, o.v); return *this; }
    Q operator*(const Q &o) const { Q r; Mode m; mpq_mul(r.v, v, o.v); return r; }
    Q operator+(const Q &o) const { Q r; Mode m; mpq_add(r.v, v, o.v); return r; }
    Q operator-(const Q &o) const { Q r; Mode m; mpq_sub(r.v, v, o.v); return r; }
    Q operator/(const Q &o) const { Q r; Mode m; mpq_div(r.v, v, o.v); return r; }
    Q abs() const { Q r; Mode m; mpq_abs(r.v, v); return r; }
    bool operator==(const Q &o) const { return mpq_equal(v, o.v) != 0; }
    bool operator!=(const Q &o) const { return mpq_equal(v, o.v) == 0; }
    bool operator<(const Q &o) const { Mode m; return mpq_cmp(v, o.v) < 0; }
    bool operator<=(const Q &o) const { Mode m; return mpq_cmp(v, o.v) <= 0; }
    int sgn() const { return mpq_sgn(v); }
    Z num() const { return Z(mpq_numref(v)); }
    Z den() const { return Z(mpq_denref(v)); }
    std::string str() const { Mode m; std::string t(mpz_sizeinbase(mpq_numref(v), 10) + mpz_sizeinbase(mpq_denref(v), 10) + 4, 0); mpq_get_str(&t[0], 10, v); t.resize(strlen(t.c_str())); return t; }
};
inline bool eq(const mpq_t a, const Q &b)       // exact, without trusting canonical form of a
{
    Mode m; mpz_t x, y; mpz_init(x); mpz_init(y);
    mpz_mul(x, mpq_numref(a), mpq_denref(b.v)); mpz_mul(y, mpq_denref(a), mpq_numref(b.v));
    bool r = mpz_cmp(x, y) == 0 && mpz_sgn(mpq_denref(a)) > 0; mpz_clear(x); mpz_clear(y); return r;
}
inline bool canonical(const mpq_t a)
{
    Mode m; if (mpz_sgn(mpq_denref(a)) <= 0) return false;
    mpz_t g; mpz_init(g); mpz_gcd(g, mpq_numref(a), mpq_denref(a)); bool r = mpz_cmp_ui(g, 1) == 0; mpz_clear(g); return r;
}

typedef std::vector<std::vector<Z>> Mat;
inline Mat zeros(int m, int n) { return Mat(m, std::vector<Z>(n)); }

// Fraction-free Gauss-Jordan with row exchanges on [A|B]: returns det(A); X := det(A) * A^-1 B if det != 0
inline Z det_solve(const Mat &A, const Mat &B, Mat &X)
{
    int n = (int) A.size(), nb = B.empty() ? 0 : (int) B[0].size(), w = n + nb;
    Mat M = zeros(n, w);
    for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) M[i][j] = A[i][j]; for (int j = 0; j < nb; j++) M[i][n + j] = B[i][j]; }
    Z prev(1); int sign = 1;
    for (int k = 0; k < n; k++) {
        int p = k; while (p < n && M[p][k].sgn() == 0) p++;
        if (p == n) return Z(0);
        if (p != k) { std::swap(M[p], M[k]); sign = -sign; }
        for (int i = 0; i < n; i++) if (i != k) {
            for (int j = k + 1; j < w; j++) M[i][j] = (M[k][k] * M[i][j] - M[i][k] * M[k][j]).exact(prev);
            M[i][k] = Z(0);
        }
        for (int i = 0; i < k; i++) M[i][i] = M[k][k];   // all finished diagonals equal the current pivot
        prev = M[k][k];
    }
    Z d = n ? M[n - 1][n - 1] : Z(1);
    X = zeros(n, nb);
    for (int i = 0; i < n; i++) for (int j = 0; j < nb; j++) X[i][j] = sign > 0 ? M[i][n + j] : -M[i][n + j];
    return sign > 0 ? d : -d;
}
// Fraction-free elimination without exchanges: M^(k)[i][j] at the moment it is final.
// On return F[i][j] = minor of rows {0..min(i,j)-1, i} and columns {0..min(i,j)-1, j}.
inline Mat minors(const Mat &A)
{
    int n = (int) A.size(); Mat M = A; Z prev(1);
    for (int k = 0; k < n; k++) {
        if (M[k][k].sgn() == 0) break;      // the caller rejects a zero pivot
        for (int i = k + 1; i < n; i++) for (int j = k + 1; j < n; j++)
            M[i][j] = (M[k][k] * M[i][j] - M[i][k] * M[k][j]).exact(prev);
        prev = M[k][k];
    }
    return M;
}
}
