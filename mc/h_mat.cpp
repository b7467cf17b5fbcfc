// h_mat.cpp: S10 (the matrix checker), S11 (allocate, count, free)
#include "slipx.h"
#include <memory>
#include <set>

static const char *TN[] = {"MPZ", "MPQ", "MPFR", "INT64", "FP64"};
// a raw matrix state; arrays have exactly the stated sizes
struct St { int64_t m, n, nzmax, nz; int kind, type; std::vector<int64_t> p, i, j; bool pn, in, jn, xn; };
static std::string vec(const std::vector<int64_t> &v, bool null) { if (null) return "NULL"; std::string s = "["; for (auto x : v) s += mc::fmt(" %lld", (long long) x); return s + " ]"; }
static std::string str(const St &s)
{
    return mc::fmt("m=%lld n=%lld nzmax=%lld nz=%lld kind=%d type=%d p=", (long long) s.m, (long long) s.n, (long long) s.nzmax, (long long) s.nz, s.kind, s.type) + vec(s.p, s.pn) + " i=" + vec(s.i, s.in) + " j=" + vec(s.j, s.jn) + " x=" + (s.xn ? "NULL" : "present");
}
// the reference predicate
static bool well_formed(const St &s)
{
    if (s.kind < SLIP_CSC || s.kind > SLIP_DENSE || s.type < SLIP_MPZ || s.type > SLIP_FP64) return false;
    if (s.m < 0 || s.n < 0 || s.nzmax < 0) return false;
    if (s.kind == SLIP_DENSE) return s.m * s.n <= s.nzmax && !(s.nzmax > 0 && s.xn);
    if (s.kind == SLIP_CSC) {
        if (s.pn || s.p[0] != 0) return false;
        for (int64_t j = 0; j < s.n; j++) if (s.p[j + 1] < s.p[j]) return false;
        if (s.p[s.n] > s.nzmax) return false;
        if (s.nzmax > 0 && (s.in || s.xn)) return false;
        for (int64_t j = 0; j < s.n; j++) { std::set<int64_t> seen; for (int64_t p = s.p[j]; p < s.p[j + 1]; p++) if (s.i[p] < 0 || s.i[p] >= s.m || !seen.insert(s.i[p]).second) return false; }
        return true;
    }
    if (s.nz < 0 || s.nz > s.nzmax) return false;
    if (s.nzmax > 0 && (s.in || s.jn || s.xn)) return false;
    std::set<std::pair<int64_t, int64_t>> seen;
    for (int64_t p = 0; p < s.nz; p++) if (s.i[p] < 0 || s.i[p] >= s.m || s.j[p] < 0 || s.j[p] >= s.n || !seen.insert({s.i[p], s.j[p]}).second) return false;
    return true;
}
static int64_t *arr(const std::vector<int64_t> &v, bool null) { if (null) return nullptr; int64_t *a = (int64_t *) xa::xmalloc(v.size() * 8); for (size_t k = 0; k < v.size(); k++) a[k] = v[k]; return a; }
static void run_state(const St &s)
{
    session_open();
    SLIP_matrix *A = nullptr; SLIP_info st = SLIP_matrix_allocate(&A, SLIP_DENSE, SLIP_INT64, 1, 1, 1, true, true, nullptr); REQ(st == SLIP_OK, "allocate");
    A->m = s.m; A->n = s.n; A->nzmax = s.nzmax; A->nz = s.nz; A->kind = (SLIP_kind) s.kind; A->type = (SLIP_type) s.type;
    int64_t *p = arr(s.p, s.pn), *i = arr(s.i, s.in), *j = arr(s.j, s.jn); void *x = nullptr;
    int64_t cap = s.nzmax < 0 ? 0 : s.nzmax; static const size_t sz[5] = {sizeof(mpz_t), sizeof(mpq_t), sizeof(mpfr_t), 8, 8};
    bool known = s.type >= 0 && s.type < 5; size_t xb = (size_t) cap * (known ? sz[s.type] : 8);
    if (!s.xn) {
        x = xa::xmalloc(xb); memset(x, 0, xb);
        if (known) for (int64_t k = 0; k < cap; k++) switch (s.type) {
            case SLIP_MPZ: mpz_init_set_si(((mpz_t *) x)[k], k * 3 - 4); break;
            case SLIP_MPQ: mpq_init(((mpq_t *) x)[k]); mpq_set_si(((mpq_t *) x)[k], k - 1, 3 * k + 1); break;
            case SLIP_MPFR: mpfr_init2(((mpfr_t *) x)[k], 40); mpfr_set_d(((mpfr_t *) x)[k], k * 0.7 - 1, MPFR_RNDN); break;
            case SLIP_INT64: ((int64_t *) x)[k] = k - 7; break;
            case SLIP_FP64: ((double *) x)[k] = k * 1.5 - 2; break;
        }
    }
    A->p = p; A->i = i; A->j = j; A->x.int64 = (int64_t *) x;
    bool ok = well_formed(s); mc::outcome(ok ? 0 : 1); uint64_t live = xa::live;
    std::vector<unsigned char> hdr(sizeof *A), xc(xb); memcpy(hdr.data(), A, sizeof *A); if (x) memcpy(xc.data(), x, xb);
    for (int pr = -1; pr <= 3; pr++) {
        SLIP_options o = defopt(); o.print_level = pr < 0 ? 0 : pr; xp::reset();
        st = SLIP_matrix_check(A, pr < 0 ? nullptr : &o); mc::step(mc::mix(mc::mix(st, pr), xp::hash)); mc::trace();
        REQ(st == (ok ? SLIP_OK : SLIP_INCORRECT_INPUT), "[print level %d%s] the matrix is %s but SLIP_matrix_check returned %s", o.print_level, pr < 0 ? ", default options" : "", ok ? "well formed" : "malformed", info_name(st));
        if (pr < 2) REQ(xa::live == live, "[print level %d] %lld block(s) leaked", pr, (long long) (xa::live - live));
        REQ(pr > 0 || xp::lines == 0, "printed at print level 0");
        bool same = !memcmp(hdr.data(), A, sizeof *A) && (!x || !memcmp(xc.data(), x, xb));
        for (size_t k = 0; p && k < s.p.size(); k++) same = same && p[k] == s.p[k];
        for (size_t k = 0; i && k < s.i.size(); k++) same = same && i[k] == s.i[k];
        for (size_t k = 0; j && k < s.j.size(); k++) same = same && j[k] == s.j[k];
        REQ(same, "[print level %d] the matrix was modified", pr);
    }
    if (x && known) for (int64_t k = 0; k < cap; k++) { if (s.type == SLIP_MPZ) mpz_clear(((mpz_t *) x)[k]); if (s.type == SLIP_MPQ) mpq_clear(((mpq_t *) x)[k]); if (s.type == SLIP_MPFR) mpfr_clear(((mpfr_t *) x)[k]); }
    if (p) xa::xfree(p); if (i) xa::xfree(i); if (j) xa::xfree(j); if (x) xa::xfree(x);
    A->p = A->i = A->j = nullptr; A->x.int64 = nullptr; A->kind = SLIP_DENSE; A->type = SLIP_INT64; A->m = A->n = A->nzmax = 1; mfree(A);
    session_close();
}
static void add_state(const std::string &name, uint64_t n, std::function<St(uint64_t)> get) { mc::add(name, n, [=](uint64_t i) { run_state(get(i)); }, [=](uint64_t i) { std::string t = str(get(i)); return t.size() > 1500 ? t.substr(0, 1500) + " ..." : t; }); }
static int64_t ids(mc::Dec &d, std::vector<int64_t> &v, int n, int64_t lo, int64_t hi) { v.clear(); for (int k = 0; k < n; k++) v.push_back(lo + (int64_t) d((uint64_t) (hi - lo + 1))); return 0; }

// ------------------------------------------------------------------ S11
static size_t need(int type) { static const size_t sz[5] = {sizeof(mpz_t), sizeof(mpq_t), sizeof(mpfr_t), 8, 8}; return sz[type]; }
static void set_some(SLIP_matrix *A, int64_t k, int v)
{
    switch (A->type) { case SLIP_MPZ: mpz_set_si(A->x.mpz[k], v); mpz_mul_2exp(A->x.mpz[k], A->x.mpz[k], 500); break; case SLIP_MPQ: mpq_set_si(A->x.mpq[k], v, 7); break; case SLIP_MPFR: mpfr_set_si(A->x.mpfr[k], v, MPFR_RNDN); break; case SLIP_INT64: A->x.int64[k] = v; break; case SLIP_FP64: A->x.fp64[k] = v; break; }
}
struct AC { int kind, type, m, n, nzmax; bool shallow, init; int use; };
static AC get_ac(uint64_t idx, bool th)
{
    static const int dims[8] = {0, 1, 2, 5, 3, 17, 33, 64}, nzs[9] = {-5, 0, 1, 2, 7, -1, 30, 100, 1000};
    mc::Dec d(idx); AC a; a.kind = (int) d(3); a.type = (int) d(5); a.m = dims[d(th ? 8 : 4)]; a.n = dims[d(th ? 8 : 4)]; a.nzmax = nzs[d(th ? 9 : 5)]; a.shallow = d(2); a.init = d(2); a.use = (int) d(3); return a;
}
static std::string acstr(const AC &a) { return mc::fmt("kind %d type %s %d-by-%d nzmax %d%s%s use %d", a.kind, TN[a.type], a.m, a.n, a.nzmax, a.shallow ? " shallow" : "", a.init ? " init" : "", a.use); }
static void run_alloc(const AC &a)
{
    session_open(); session_warm(); uint64_t l0 = xa::live; SLIP_options o = defopt(); o.prec = 77; int64_t poison; SLIP_matrix *A = (SLIP_matrix *) &poison;
    SLIP_info st = SLIP_matrix_allocate(&A, (SLIP_kind) a.kind, (SLIP_type) a.type, a.m, a.n, a.nzmax, a.shallow, a.init, a.use == 1 ? nullptr : &o); mc::step(mc::mix(st, a.use)); mc::trace();
    REQ(st == SLIP_OK && A && A != (SLIP_matrix *) &poison, "status %s", info_name(st));
    int64_t want = a.kind == SLIP_DENSE ? (int64_t) a.m * a.n : a.nzmax < 0 ? 0 : a.nzmax;
    REQ(A->m == a.m && A->n == a.n && A->kind == a.kind && A->type == a.type, "wrong fields"); REQ(A->nz == 0, "nz is %lld", (long long) A->nz);
    REQ(A->nzmax >= want, "capacity %lld for %lld entries", (long long) A->nzmax, (long long) want);
    REQ(mpz_cmp_ui(mpq_numref(A->scale), 1) == 0 && mpz_cmp_ui(mpq_denref(A->scale), 1) == 0, "scale is not one");
    int64_t nn = SLIP_matrix_nnz(A, &o);
    if (a.shallow) {
        REQ(A->p_shallow && A->i_shallow && A->j_shallow && A->x_shallow, "a component of a shallow matrix is not marked shallow");
        REQ(!A->p && !A->i && !A->j && !A->x.mpz, "a component of a shallow matrix is not NULL");
        REQ(nn == (a.kind == SLIP_CSC ? -1 : a.kind == SLIP_TRIPLET ? 0 : (int64_t) a.m * a.n), "entry count of the new matrix is %lld", (long long) nn);
        // borrow the arrays of an owned matrix
        SLIP_matrix *B = nullptr; st = SLIP_matrix_allocate(&B, (SLIP_kind) a.kind, (SLIP_type) a.type, a.m, a.n, a.nzmax, false, true, &o); REQ(st == SLIP_OK, "allocate: %s", info_name(st));
        uint64_t bs = snapshot(B); A->p = B->p; A->i = B->i; A->j = B->j; A->x.mpz = B->x.mpz; uint64_t l1 = xa::live;
        mfree(A); REQ(snapshot(B) == bs, "freeing a shallow matrix changed what it borrowed"); REQ(xa::live < l1, "freeing a shallow matrix released nothing");
        mfree(B);
    } else {
        REQ(!A->p_shallow && !A->i_shallow && !A->j_shallow && !A->x_shallow, "a component of an owned matrix is marked shallow");
        auto room = [&](const void *q, size_t b) { size_t s = xa::size_of(q); return s != (size_t) -1 && s >= b; };
        REQ(room(A->x.mpz, A->nzmax * need(a.type)), "value array is short");
        if (a.kind == SLIP_CSC) { REQ(room(A->p, (a.n + 1) * 8), "p is short"); for (int k = 0; k <= a.n; k++) REQ(A->p[k] == 0, "p is not zero"); } else REQ(!A->p, "p allocated");
        if (a.kind != SLIP_DENSE) { REQ(room(A->i, A->nzmax * 8), "i is short"); for (int64_t k = 0; k < A->nzmax; k++) REQ(A->i[k] == 0, "i is not zero"); } else REQ(!A->i, "i allocated");
        if (a.kind == SLIP_TRIPLET) { REQ(room(A->j, A->nzmax * 8), "j is short"); for (int64_t k = 0; k < A->nzmax; k++) REQ(A->j[k] == 0, "j is not zero"); } else REQ(!A->j, "j allocated");
        REQ(nn == (a.kind == SLIP_DENSE ? (int64_t) a.m * a.n : 0), "entry count of the new matrix is %lld", (long long) nn);
        for (int64_t k = 0; k < A->nzmax; k++) switch (a.type) {
            case SLIP_INT64: REQ(A->x.int64[k] == 0, "x is not zero"); break;
            case SLIP_FP64: REQ(A->x.fp64[k] == 0, "x is not zero"); break;
            case SLIP_MPZ: if (a.init) REQ(mpz_sgn(A->x.mpz[k]) == 0, "x is not zero"); break;
            case SLIP_MPQ: if (a.init) { REQ(mpq_sgn(A->x.mpq[k]) == 0 && mpz_cmp_ui(mpq_denref(A->x.mpq[k]), 1) == 0, "x is not zero"); } break;
            case SLIP_MPFR: if (a.init) REQ(mpfr_get_prec(A->x.mpfr[k]) == (a.use == 1 ? 128 : 77), "precision %ld", (long) mpfr_get_prec(A->x.mpfr[k])); break;
        }
        if (a.init) REQ(SLIP_matrix_check(A, &o) == SLIP_OK, "the new matrix does not pass SLIP_matrix_check");
        if (!a.init && a.type <= SLIP_MPFR) for (int64_t k = 0; k < A->nzmax; k++) if (a.use == 2 || (k & 1)) switch (a.type) { case SLIP_MPZ: mpz_init(A->x.mpz[k]); break; case SLIP_MPQ: mpq_init(A->x.mpq[k]); break; case SLIP_MPFR: mpfr_init2(A->x.mpfr[k], 99); break; }
        if (a.use != 0) for (int64_t k = 0; k < A->nzmax; k++) if (a.init || a.use == 2 || (k & 1)) set_some(A, k, (int) k - 3);
    }
    if (A) mfree(A); REQ(xa::live == l0, "%lld block(s) left after freeing", (long long) (xa::live - l0));
    st = SLIP_matrix_free(&A, &o); REQ(st == SLIP_OK && !A, "freeing twice returned %s", info_name(st)); st = SLIP_matrix_free(nullptr, nullptr); REQ(st == SLIP_OK, "freeing a null handle returned %s", info_name(st));
    mc::outcome(0); session_close();
}
// any subset of the components borrowed
static void run_partial(uint64_t idx)
{
    mc::Dec d(idx); int kind = (int) d(3), type = (int) d(5), mask = (int) d(16); bool null = d(2);
    session_open(); session_warm(); uint64_t l0 = xa::live; SLIP_matrix *A = nullptr, *B = nullptr; SLIP_options o = defopt();
    for (SLIP_matrix **M : {&A, &B}) { SLIP_info st = SLIP_matrix_allocate(M, (SLIP_kind) kind, (SLIP_type) type, 3, 2, 4, false, true, &o); REQ(st == SLIP_OK, "allocate"); for (int64_t k = 0; k < (*M)->nzmax; k++) set_some(*M, k, (int) k); if (kind == SLIP_CSC) { (*M)->p[1] = 1; (*M)->p[2] = 3; } (*M)->nz = 2; }
    // A borrows from B what the mask says; its own copies of those are released first (or kept aside)
    int64_t *own[3] = {A->p, A->i, A->j}; void *ownx = A->x.mpz; uint64_t bs = snapshot(B);
    if (mask & 1) { A->p = null ? nullptr : B->p; A->p_shallow = true; } if (mask & 2) { A->i = null ? nullptr : B->i; A->i_shallow = true; }
    if (mask & 4) { A->j = null ? nullptr : B->j; A->j_shallow = true; } if (mask & 8) { A->x.mpz = null ? nullptr : B->x.mpz; A->x_shallow = true; }
    int64_t want = kind == SLIP_CSC ? (A->p ? 3 : -1) : kind == SLIP_TRIPLET ? 2 : 6, nn = SLIP_matrix_nnz(A, nullptr); mc::step(mc::mix(nn, mask)); mc::trace(); REQ(nn == want, "entry count %lld, expected %lld", (long long) nn, (long long) want);
    mfree(A); REQ(snapshot(B) == bs, "freeing changed a borrowed component");
    for (int k = 0; k < 3; k++) if (own[k]) { bool there = xa::size_of(own[k]) != (size_t) -1; REQ(there == !!(mask >> k & 1), there ? "an owned component was not released" : "a component marked shallow was released"); if (there) xa::xfree(own[k]); }
    bool there = xa::size_of(ownx) != (size_t) -1; REQ(there == !!(mask & 8), there ? "the owned values were not released" : "values marked shallow were released");
    if (there) { for (int64_t k = 0; k < B->nzmax; k++) switch (type) { case SLIP_MPZ: mpz_clear(((mpz_t *) ownx)[k]); break; case SLIP_MPQ: mpq_clear(((mpq_t *) ownx)[k]); break; case SLIP_MPFR: mpfr_clear(((mpfr_t *) ownx)[k]); break; } xa::xfree(ownx); }
    mfree(B); REQ(xa::live == l0, "%lld block(s) left", (long long) (xa::live - l0)); session_close();
}
static void run_count(uint64_t idx)
{
    mc::Dec d(idx); int kind = (int) d(6) - 1, m = (int) d(5) - 1, n = (int) d(5) - 1, nz = (int) d(6) - 1, pn = (int) d(2), type = (int) d(7) - 1;
    session_open(); SLIP_matrix *A = nullptr; SLIP_info st = SLIP_matrix_allocate(&A, SLIP_TRIPLET, SLIP_INT64, 1, 1, 1, true, true, nullptr); REQ(st == SLIP_OK, "allocate"); std::vector<int64_t> p((size_t) (n < 0 ? 1 : n + 1), 0); p.back() = nz + 10;
    A->kind = (SLIP_kind) kind; A->type = (SLIP_type) type; A->m = m; A->n = n; A->nz = nz; A->p = pn ? nullptr : p.data(); SLIP_options o = defopt();
    int64_t want = kind == SLIP_CSC ? (pn || n < 0 ? -1 : p[n]) : kind == SLIP_TRIPLET ? nz : kind == SLIP_DENSE ? (m < 0 || n < 0 ? -1 : (int64_t) m * n) : -1;
    for (int k = 0; k < 2; k++) { int64_t got = SLIP_matrix_nnz(A, k ? &o : nullptr); mc::step(mc::mix(got, kind)); mc::trace(); REQ(got == want, "entry count %lld, expected %lld", (long long) got, (long long) want); }
    REQ(SLIP_matrix_nnz(nullptr, &o) == -1, "count of a null matrix"); mc::outcome(want < 0 ? 1 : 0);
    A->kind = SLIP_TRIPLET; A->type = SLIP_INT64; A->m = A->n = 1; A->p = nullptr; mfree(A); session_close();
}

void mc::register_spaces(const std::string &prop, bool th)
{
    if (prop == "S11") th = true;  // cheap enough
    if (prop == "S10") {
        mc::outcome_name(0, "well formed"); mc::outcome_name(1, "malformed");
        mc::assume("the arrays have the sizes the header of the matrix promises: n+1 column pointers and nzmax indices and values");
        for (int m = 0; m <= 2; m++) for (int n = 0; n <= (th ? 3 : 2); n++) for (int z = 0; z <= 3; z++) {
            uint64_t np = mc::ipow(z + 4, n + 1), ni = mc::ipow(m + 2, z);
            add_state(mc::fmt("csc-%dx%d-cap%d", m, n, z), np * ni * (th && n < 3 ? 5 : 1), [=](uint64_t i) { mc::Dec d(i); St s; s.m = m; s.n = n; s.nzmax = z; s.nz = (int64_t) (i % 3); s.kind = SLIP_CSC; ids(d, s.p, n + 1, -1, z + 2); ids(d, s.i, z, -1, m); s.type = (int) ((d(5) + i) % 5); s.pn = false; s.in = z == 0; s.jn = true; s.xn = z == 0; return s; });
            uint64_t nj = mc::ipow(n + 2, z);
            if (n <= 2) add_state(mc::fmt("triplet-%dx%d-cap%d", m, n, z), (uint64_t) (z + 4) * ni * nj * (th ? 5 : 1), [=](uint64_t i) { mc::Dec d(i); St s; s.m = m; s.n = n; s.nzmax = z; s.nz = (int64_t) d(z + 4) - 1; s.kind = SLIP_TRIPLET; ids(d, s.i, z, -1, m); ids(d, s.j, z, -1, n); s.type = (int) ((d(5) + i) % 5); s.pn = true; s.in = s.jn = s.xn = z == 0; return s; });
        }
        // longer columns, unsorted, duplicates far apart
        add_state("csc-long-columns", mc::ipow(4, 5) * 21 * 3, [=](uint64_t i) { mc::Dec d(i); St s; s.m = 4; s.n = 2; s.kind = SLIP_CSC; ids(d, s.i, 5, 0, 3); int a = 0, b = 0, k = (int) d(21); for (a = 0; a <= 5; a++) { if (k < 6 - a) { b = a + k; break; } k -= 6 - a; } s.p = {0, a, b}; s.nzmax = 5; s.nz = 0; s.type = (int) ((i + d(3)) % 5); s.pn = s.in = s.xn = false; s.jn = true; return s; });
        add_state("triplet-five", mc::ipow(6, 5), [=](uint64_t i) { mc::Dec d(i); St s; s.m = 2; s.n = 3; s.kind = SLIP_TRIPLET; s.nzmax = 5 + (int) (i % 2); s.nz = 5; for (int k = 0; k < 5; k++) { int c = (int) d(6); s.i.push_back(c % 2); s.j.push_back(c / 2); } for (int k = 5; k < s.nzmax; k++) { s.i.push_back(99); s.j.push_back(-9); } s.type = (int) (i % 5); s.pn = true; s.in = s.jn = s.xn = false; return s; });
        // indices beyond 32 bits
        add_state("triplet-wide", mc::ipow(64, th ? 3 : 2) * 2, [=](uint64_t i) { static const int64_t a[8] = {0, 1, 1ll << 31, 1ll << 32, (1ll << 32) + 1, (1ll << 40) - 1, 1ll << 40, -(1ll << 32)}; mc::Dec d(i); St s; s.m = s.n = 1ll << 40; s.kind = SLIP_TRIPLET; int k = th ? 3 : 2; if (d(2)) std::swap(s.m, s.n); s.nzmax = s.nz = k; for (int t = 0; t < k; t++) { s.i.push_back(a[d(8)]); s.j.push_back(a[d(8)]); } s.type = (int) (i % 5); s.pn = true; s.in = s.jn = s.xn = false; return s; });
        // many columns (the printing limit is passed)
        add_state("long-print", 60ull * 5 * 3 * 4, [=](uint64_t i) { mc::Dec d(i); int n = (int) d(60); St s; s.type = (int) d(5); s.kind = (int) d(3); int bad = (int) d(4); s.m = n; s.n = n ? 2 : 0; s.nz = 2 * n; s.nzmax = s.m * s.n + 3; s.pn = s.kind != SLIP_CSC; s.in = s.kind == SLIP_DENSE; s.jn = s.kind != SLIP_TRIPLET; s.xn = false; s.p = {0, n, 2 * n}; if (!n) s.p = {0};
                for (int64_t k = 0; k < s.nzmax; k++) { s.i.push_back(k < s.nz ? k % n : 0); s.j.push_back(k < s.nz ? k / n : 0); }
                if (n && bad == 1) s.i[2 * n - 1] = n; if (n && bad == 2) s.i[2 * n - 1] = 0; if (n && bad == 3 && s.kind == SLIP_DENSE) s.nzmax = s.m * s.n - 1; return s; });
        // larger matrices with one defect at each of thirty places
        {
            static const int LM[] = {13, 40, 64, 101, 200}, LNn[] = {17, 31, 64, 33, 12}; const uint64_t n = 5ull * 2 * 5 * 30 * 9;
            add_state("larger", n, [=](uint64_t i) { mc::Dec d(i); int g = (int) d(5), m = LM[g], nc = LNn[g]; St s; s.m = m; s.n = nc; s.kind = d(2) ? SLIP_TRIPLET : SLIP_CSC; s.type = (int) d(5); int64_t at = (int64_t) d(30); int bad = (int) d(9);
                s.p = {0}; for (int j = 0; j < nc; j++) { int len = j % 7 == 3 ? m : (j * 5 + g) % 6; for (int k = 0; k < len; k++) { int64_t r = len == m ? (k * 7 + j) % m : (k * (m / 6) + j) % m; if (len == m && m % 7 == 0) r = m - 1 - k; s.i.push_back(r); s.j.push_back(j); } s.p.push_back((int64_t) s.i.size()); }
                int64_t nz = (int64_t) s.i.size(), e = at * (nz - 1) / 29; s.nz = nz; s.nzmax = nz + 3; bool csc = s.kind == SLIP_CSC;
                switch (bad) {
                    case 1: s.i[e] = m; break; case 2: s.i[e] = -1; break;
                    case 3: { int64_t j = s.j[e]; s.i[e] = s.i[s.p[j]]; } break;                                     // twice in the column (well formed when it is the first entry)
                    case 4: { int64_t j = s.j[e]; s.i[e] = s.i[s.p[j + 1] - 1]; } break;
                    case 5: if (csc) { int64_t c = at * nc / 29; s.p[c] += 1; } else s.j[e] = nc; break;               // may stay well formed: an entry moves to the previous column
                    case 6: if (csc) { int64_t c = 1 + at * (nc - 1) / 29; s.p[c] = s.p[c - 1] - 1; } else s.j[e] = -1; break;
                    case 7: s.nzmax = csc ? nz - (at % 2) : nz - 1 + (at % 2); break;
                    case 8: { int64_t o = nz - 1 - e; s.i[e] = s.i[o]; s.j[e] = s.j[o]; } break;                        // the same position far apart
                    default: break;
                }
                s.i.resize((size_t) (s.nzmax < nz ? nz : s.nzmax), m + 5); s.j.resize(s.i.size(), -9); s.i.resize((size_t) s.nzmax); s.j.resize((size_t) s.nzmax); s.pn = !csc; s.in = false; s.jn = csc; s.xn = false; return s; });
        }
        // more rows, columns or entries than 16 bits count; a defect at either end, in the middle and around 65536
        add_state("beyond-16-bits", 3ull * 9 * 3 * 2 * (th ? 2 : 1), [=](uint64_t i) { static const int SH[3][2] = {{70001, 1}, {70003, 70003}, {2, 35003}}; static const int64_t AT[6] = {0, 65536, 69999, 65535, 35000, 65537};
                mc::Dec d(i); int g = (int) d(3), bad = (int) d(9), a3 = (int) d(3); St s; s.m = SH[g][0]; s.n = SH[g][1]; s.kind = d(2) ? SLIP_TRIPLET : SLIP_CSC; int64_t e = AT[a3 + 3 * (int) d(2)]; s.type = (int) (i % 5); s.p = {0};
                for (int64_t j = 0; j < s.n; j++) { int64_t len = g == 0 ? 70001 : g == 1 ? 1 : 2; for (int64_t k = 0; k < len; k++) { s.i.push_back(g == 0 ? (k * 7 + 3) % 70001 : g == 1 ? (j * 5 + 1) % 70003 : (k + j) % 2); s.j.push_back(j); } s.p.push_back((int64_t) s.i.size()); }
                int64_t nz = (int64_t) s.i.size(); s.nz = nz; s.nzmax = nz + 1; bool csc = s.kind == SLIP_CSC;
                switch (bad) {
                    case 1: s.i[e] = s.m; break; case 2: s.i[e] = -1; break;
                    case 3: if (e) { s.i[e] = s.i[e - 1]; s.j[e] = s.j[e - 1]; } break;
                    case 4: s.i[e] = s.i[nz - 1]; s.j[e] = s.j[nz - 1]; break;
                    case 5: if (csc) s.p[s.n] = nz + 2; else s.j[e] = s.n; break;
                    case 6: if (csc && s.n > 2) s.p[1 + e / 3] = s.p[e / 3] - 1; else s.j[e] = -1; break;
                    case 7: s.nzmax = nz - 1; break;
                    case 8: s.i[e] ^= 65536; break;
                    default: break;
                }
                s.i.resize((size_t) s.nzmax); s.j.resize((size_t) s.nzmax); s.pn = !csc; s.in = false; s.jn = csc; s.xn = false; return s; });
        // missing arrays, dimensions, capacities, kinds and types
        add_state("fields", 8ull * 10 * 4 * 4 * 5 * 4 * 16, [=](uint64_t i) { mc::Dec d(i); St s; s.kind = (int) d(8) - 2; s.type = (int) d(10) - 2; s.m = (int64_t) d(4) - 1; s.n = (int64_t) d(4) - 1; s.nzmax = (int64_t) d(5) - 1; s.nz = (int64_t) d(4) - 1; int mask = (int) d(16); s.pn = mask & 1; s.in = mask & 2; s.jn = mask & 4; s.xn = mask & 8;
                int64_t c = s.nzmax < 0 ? 0 : s.nzmax, nn = s.n < 0 ? 0 : s.n; s.p.assign((size_t) nn + 1, 0); for (int64_t j = 1; j <= nn; j++) s.p[j] = j <= c && s.m > 0 ? j : s.p[j - 1]; s.i.assign((size_t) c, 0); s.j.clear(); for (int64_t k = 0; k < c; k++) s.j.push_back(k); if (s.kind == SLIP_TRIPLET && s.m > 1) for (int64_t k = 0; k < c; k++) { s.i[k] = k % s.m; s.j[k] = k / s.m; } return s; });
    }
    if (prop == "S11") {
        mc::outcome_name(0, "matrix or count"); mc::outcome_name(1, "no count");
        uint64_t n = 3ull * 5 * (th ? 64 * 9 : 16 * 5) * 2 * 2 * 3;
        mc::add("allocate-free", n, [=](uint64_t i) { run_alloc(get_ac(i, th)); }, [=](uint64_t i) { return acstr(get_ac(i, th)); });
        auto wide = [](uint64_t i) { static const int SH[5][2] = {{70001, 1}, {1, 70001}, {300, 250}, {0, 70001}, {70001, 70001}}; mc::Dec d(i); AC a; a.kind = (int) d(3); a.type = (int) d(5); int g = (int) d(5); a.m = SH[g][0]; a.n = SH[g][1]; a.nzmax = d(2) ? 70001 : 3; a.shallow = d(2); a.init = d(2); a.use = 0;
            if (a.kind == SLIP_DENSE && g == 4) a.m = 3; return a; };
        mc::add("beyond-16-bits", 3ull * 5 * 5 * 2 * 2 * 2, [=](uint64_t i) { run_alloc(wide(i)); }, [=](uint64_t i) { return acstr(wide(i)); });
        mc::add("borrowed-components", 3ull * 5 * 16 * 2, run_partial, [](uint64_t i) { mc::Dec d(i); int k = (int) d(3), t = (int) d(5), m = (int) d(16); return mc::fmt("kind %d type %s shallow mask %d (p,i,j,x) %s", k, TN[t], m, d(2) ? "null" : "borrowed"); });
        mc::add("count", 6ull * 5 * 5 * 6 * 2 * 7, run_count, [](uint64_t i) { return mc::fmt("entry count %llu", (unsigned long long) i); });
    }
}
