#include "slipx.h"
#include <vector>
namespace xa {
uint64_t requests, live, fail1, fail2, fail_from, failed;
unsigned char fill = 0xCD;
uint64_t n_malloc, n_calloc, n_realloc, n_free;
static Ent *tab = nullptr; static size_t cap = 0, used = 0;
static size_t slot(const void *p) { uint64_t h = (uint64_t) p; h = (h >> 4) * 0x9E3779B97F4A7C15ULL; return (h >> 20) & (cap - 1); }
static void put(void *p, size_t n)
{
    if (2 * (used + 1) > cap) {
        size_t oc = cap; Ent *o = tab; cap = cap ? cap * 2 : 1024; tab = (Ent *) calloc(cap, sizeof(Ent)); used = 0;
        for (size_t i = 0; i < oc; i++) if (o[i].p) { size_t k = slot(o[i].p); while (tab[k].p) k = (k + 1) & (cap - 1); tab[k] = o[i]; used++; }
        free(o);
    }
    size_t k = slot(p); while (tab[k].p) k = (k + 1) & (cap - 1);
    tab[k].p = p; tab[k].n = n; tab[k].id = requests; used++; live++;
}
static size_t find(const void *p) { if (!cap) return (size_t) -1; size_t k = slot(p); while (tab[k].p) { if (tab[k].p == p) return k; k = (k + 1) & (cap - 1); } return (size_t) -1; }
static void del(size_t k)
{
    size_t i = k; used--; live--;
    for (;;) {      // backward shift
        tab[k].p = nullptr; size_t j = k;
        for (;;) {
            i = (i + 1) & (cap - 1); if (!tab[i].p) return;
            j = slot(tab[i].p);
            if (k <= i ? (k < j && j <= i) : (k < j || j <= i)) continue;
            break;
        }
        tab[k] = tab[i]; k = i;
    }
}
size_t size_of(const void *p) { size_t k = find(p); return k == (size_t) -1 ? (size_t) -1 : tab[k].n; }
std::string live_str()
{
    std::string s; int c = 0;
    for (size_t k = 0; k < cap; k++) if (tab[k].p && c++ < 8) s += mc::fmt("%s%zu bytes (request %llu)", c > 1 ? ", " : "", tab[k].n, (unsigned long long) tab[k].id);
    return s;
}
static bool refuse()
{
    requests++;
    if ((fail1 && requests == fail1) || (fail2 && requests == fail2) || (fail_from && requests >= fail_from)) { failed++; return true; }
    return false;
}
static const size_t LIMIT = (size_t) 1 << 31;
void *xmalloc(size_t n)
{
    n_malloc++; if (refuse() || n > LIMIT) return nullptr;
    void *p = malloc(n ? n : 1); if (!p) return nullptr;
    memset(p, fill, n); put(p, n); return p;
}
void *xcalloc(size_t a, size_t b)
{
    n_calloc++; if (refuse() || (b && a > LIMIT / b)) return nullptr;
    void *p = calloc(a * b ? a * b : 1, 1); if (!p) return nullptr;
    put(p, a * b); return p;
}
void *xrealloc(void *p, size_t n)
{
    n_realloc++; if (refuse() || n > LIMIT) return nullptr;
    size_t old = 0;
    if (p) { size_t k = find(p); if (k == (size_t) -1) mc::fail("realloc of a block that is not live"); old = tab[k].n; }
    void *q = malloc(n ? n : 1); if (!q) return nullptr;    // always moves
    memset(q, fill, n); if (p) { memcpy(q, p, old < n ? old : n); del(find(p)); free(p); }
    put(q, n); return q;
}
void xfree(void *p)
{
    n_free++; if (!p) return;
    size_t k = find(p); if (k == (size_t) -1) mc::fail("free of a block that is not live (double free, or a block of another allocator)");
    memset(p, 0xDF, tab[k].n < 4096 ? tab[k].n : 4096);
    del(k); free(p);
}
void arm(uint64_t k1, uint64_t k2) { disarm(); fail1 = k1 ? requests + k1 : 0; fail2 = k2 ? requests + k2 : 0; }
void arm_from(uint64_t k) { disarm(); fail_from = requests + k; }
void disarm() { fail1 = fail2 = fail_from = 0; failed = 0; }
}
namespace xp {
uint64_t lines, chars, hash;
int xprintf(const char *f, ...)
{
    char buf[4096]; va_list a; va_start(a, f); int k = vsnprintf(buf, sizeof buf, f, a); va_end(a);
    lines++; if (k > 0) { chars += k; hash = mc::hbytes(hash, buf, (size_t) (k < 4095 ? k : 4095)); }
    return k;
}
void reset() { lines = chars = hash = 0; }
}
void use_tracked()
{
    SuiteSparse_config.malloc_func = xa::xmalloc; SuiteSparse_config.calloc_func = xa::xcalloc;
    SuiteSparse_config.realloc_func = xa::xrealloc; SuiteSparse_config.free_func = xa::xfree;
    SuiteSparse_config.printf_func = xp::xprintf;
}
void session_open()
{
    SuiteSparse_config.printf_func = xp::xprintf;
    SLIP_info r = SLIP_initialize_expert(xa::xmalloc, xa::xcalloc, xa::xrealloc, xa::xfree);
    REQ(r == SLIP_OK, "opening a session returned %s", info_name(r));
}
void session_warm()
{
    SLIP_matrix *A = nullptr; SLIP_info r = SLIP_matrix_allocate(&A, SLIP_DENSE, SLIP_MPQ, 2, 2, 4, false, true, nullptr);
    REQ(r == SLIP_OK && A, "allocating a matrix returned %s", info_name(r)); mfree(A);
}
void session_close()
{
    SLIP_info r = SLIP_finalize();
    REQ(r == SLIP_OK, "closing the session returned %s", info_name(r));
    REQ(xa::live == 0, "%llu block(s) still allocated after the session was closed (leak): %s", (unsigned long long) xa::live, xa::live_str().c_str());
}
const char *info_name(int i)
{
    switch (i) { case 0: return "SLIP_OK"; case -1: return "SLIP_OUT_OF_MEMORY"; case -2: return "SLIP_SINGULAR"; case -3: return "SLIP_INCORRECT_INPUT"; case -4: return "SLIP_INCORRECT"; case -5: return "SLIP_PANIC"; }
    return "unknown status";
}
std::string Spec::str() const
{
    std::string s = mc::fmt("%d-by-%d {", m, n);
    for (auto &t : e) s += mc::fmt(" (%d,%d)=%s", t.i, t.j, t.v.str().c_str());
    return s + " }";
}
SLIP_matrix *make_csc(const Spec &s)
{
    SLIP_matrix *A = nullptr; int64_t nz = (int64_t) s.e.size();
    SLIP_info r = SLIP_matrix_allocate(&A, SLIP_CSC, SLIP_MPZ, s.m, s.n, nz, false, true, nullptr);
    REQ(r == SLIP_OK && A, "allocating the input matrix returned %s", info_name(r));
    int64_t k = 0; std::vector<std::vector<const Entry *>> col((size_t) s.n);
    for (auto &t : s.e) col[t.j].push_back(&t);
    for (int j = 0; j < s.n; j++) {
        A->p[j] = k;
        for (auto t : col[j]) { A->i[k] = t->i; mpz_set(A->x.mpz[k], t->v.v); k++; }
    }
    A->p[s.n] = k; return A;
}
SLIP_matrix *make_dense(const ref::Mat &B, int m, int n)
{
    SLIP_matrix *A = nullptr;
    SLIP_info r = SLIP_matrix_allocate(&A, SLIP_DENSE, SLIP_MPZ, m, n, (int64_t) m * n, false, true, nullptr);
    REQ(r == SLIP_OK && A, "allocating the right-hand side returned %s", info_name(r));
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) mpz_set(A->x.mpz[i + (int64_t) j * m], B[i][j].v);
    return A;
}
void set_scale(SLIP_matrix *A, const ref::Q &q) { mpq_set(A->scale, q.v); }
uint64_t hash_mpz(uint64_t h, const mpz_t z)
{
    int s = z->_mp_size; h = mc::mix(h, (uint64_t) (int64_t) s);
    for (int k = 0; k < (s < 0 ? -s : s); k++) h = mc::mix(h, z->_mp_d[k]);
    return h;
}
uint64_t hash_mpq(uint64_t h, const mpq_t q) { return hash_mpz(hash_mpz(h, mpq_numref(q)), mpq_denref(q)); }
uint64_t hash_mpfr(uint64_t h, const mpfr_t f)
{
    h = mc::mix(h, (uint64_t) f->_mpfr_prec); h = mc::mix(h, (uint64_t) (int64_t) f->_mpfr_sign); h = mc::mix(h, (uint64_t) f->_mpfr_exp);
    if (mpfr_regular_p(f)) for (long k = 0; k < (f->_mpfr_prec + 63) / 64; k++) h = mc::mix(h, f->_mpfr_d[k]);
    return h;
}
static int64_t nentries(const SLIP_matrix *A)
{
    switch (A->kind) { case SLIP_CSC: return A->p ? A->p[A->n] : 0; case SLIP_TRIPLET: return A->nz; case SLIP_DENSE: return A->m * A->n; }
    return 0;
}
uint64_t content(const SLIP_matrix *A)
{
    if (!A) return 12345;
    uint64_t h = 7; h = mc::mix(h, A->m); h = mc::mix(h, A->n); h = mc::mix(h, A->kind); h = mc::mix(h, A->type);
    int64_t nz = nentries(A); h = mc::mix(h, nz); h = hash_mpq(h, A->scale);
    if (A->kind == SLIP_CSC) h = mc::hbytes(h, A->p, (A->n + 1) * 8);
    if (A->kind != SLIP_DENSE) h = mc::hbytes(h, A->i, nz * 8);
    if (A->kind == SLIP_TRIPLET) h = mc::hbytes(h, A->j, nz * 8);
    for (int64_t k = 0; k < nz; k++) switch (A->type) {
        case SLIP_MPZ: h = hash_mpz(h, A->x.mpz[k]); break;
        case SLIP_MPQ: h = hash_mpq(h, A->x.mpq[k]); break;
        case SLIP_MPFR: h = hash_mpfr(h, A->x.mpfr[k]); break;
        case SLIP_INT64: h = mc::mix(h, (uint64_t) A->x.int64[k]); break;
        case SLIP_FP64: { uint64_t b; memcpy(&b, &A->x.fp64[k], 8); h = mc::mix(h, b); } break;
    }
    return h;
}
uint64_t snapshot(const SLIP_matrix *A)
{
    if (!A) return 54321;
    uint64_t h = content(A);
    h = mc::mix(h, (uint64_t) A); h = mc::mix(h, (uint64_t) A->p); h = mc::mix(h, (uint64_t) A->i); h = mc::mix(h, (uint64_t) A->j); h = mc::mix(h, (uint64_t) A->x.mpz);
    h = mc::mix(h, A->p_shallow * 8 + A->i_shallow * 4 + A->j_shallow * 2 + A->x_shallow); h = mc::mix(h, A->nzmax); h = mc::mix(h, A->nz);
    return h;
}
uint64_t snapshot(const SLIP_LU_analysis *S, int64_t n)
{
    if (!S) return 999;
    uint64_t h = mc::mix(3, S->lnz); h = mc::mix(h, S->unz); return mc::hbytes(h, S->q, n * 8);
}
std::string valid(const SLIP_matrix *A, bool owned)
{
    if (!A) return "null matrix";
    if (A->m < 0 || A->n < 0) return "negative dimension";
    if (A->nzmax < 0) return "negative capacity";
    if (A->kind < SLIP_CSC || A->kind > SLIP_DENSE) return "unknown kind";
    if (A->type < SLIP_MPZ || A->type > SLIP_FP64) return "unknown type";
    if (owned && (A->p_shallow || A->i_shallow || A->j_shallow || A->x_shallow)) return "a component is shallow";
    if (mpz_sgn(mpq_denref(A->scale)) <= 0 || mpq_sgn(A->scale) <= 0) return "scale factor not positive";
    if (A->kind == SLIP_CSC && !A->p) return "no column pointers";
    int64_t nz = nentries(A);
    if (nz < 0) return "negative number of entries";
    if (nz > A->nzmax) return mc::fmt("%lld entries but capacity %lld", (long long) nz, (long long) A->nzmax);
    static const size_t sz[5] = {sizeof(mpz_t), sizeof(mpq_t), sizeof(mpfr_t), 8, 8};
    if (owned) {
        auto room = [&](const void *p, size_t need) { size_t s = xa::size_of(p); return s != (size_t) -1 && s >= need; };
        if (!room(A->x.mpz, (size_t) A->nzmax * sz[A->type])) return "value array shorter than the capacity";
        if (A->kind != SLIP_DENSE && !room(A->i, (size_t) A->nzmax * 8)) return "row index array shorter than the capacity";
        if (A->kind == SLIP_TRIPLET && !room(A->j, (size_t) A->nzmax * 8)) return "column index array shorter than the capacity";
        if (A->kind == SLIP_CSC && !room(A->p, (size_t) (A->n + 1) * 8)) return "column pointer array too short";
    }
    if (A->kind == SLIP_CSC) {
        if (A->p[0] != 0) return "first column pointer not zero";
        for (int64_t j = 0; j < A->n; j++) if (A->p[j + 1] < A->p[j]) return "decreasing column pointers";
        std::vector<int64_t> mark(A->m, -1);
        for (int64_t j = 0; j < A->n; j++) for (int64_t p = A->p[j]; p < A->p[j + 1]; p++) {
            int64_t i = A->i[p];
            if (i < 0 || i >= A->m) return "row index out of range";
            if (mark[i] == j) return "duplicate entry";
            mark[i] = j;
        }
    } else if (A->kind == SLIP_TRIPLET) {
        std::vector<char> mark((size_t) (A->m * A->n), 0);
        for (int64_t p = 0; p < nz; p++) {
            if (A->i[p] < 0 || A->i[p] >= A->m || A->j[p] < 0 || A->j[p] >= A->n) return "index out of range";
            char &c = mark[A->i[p] + A->j[p] * A->m]; if (c) return "duplicate entry"; c = 1;
        }
    }
    if (A->type == SLIP_MPQ) for (int64_t k = 0; k < nz; k++) if (!ref::canonical(A->x.mpq[k])) return "rational entry not in canonical form";
    return "";
}
void mfree(SLIP_matrix *&A)
{
    SLIP_info r = SLIP_matrix_free(&A, nullptr);
    REQ(r == SLIP_OK && A == nullptr, "freeing a matrix returned %s", info_name(r));
}
std::string optstr(const SLIP_options *o)
{
    if (!o) return "default options";
    static const char *pv[] = {"SMALLEST", "DIAGONAL", "FIRST_NONZERO", "TOL_SMALLEST", "TOL_LARGEST", "LARGEST"};
    static const char *od[] = {"NO_ORDERING", "COLAMD", "AMD"};
    return mc::fmt("pivot=%s order=%s tol=%g print=%d check=%d prec=%d round=%d", (unsigned) o->pivot < 6 ? pv[o->pivot] : "?", (unsigned) o->order < 3 ? od[o->order] : "?", o->tol, o->print_level, o->check, o->prec, (int) o->round);
}
