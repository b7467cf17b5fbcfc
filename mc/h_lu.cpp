// h_lu.cpp: S01 S02 S03 S04 S05 S06 S20 S21
#include "lu.h"
#include "graphs.h"
#include "ref_fp.h"
using ref::round_q; using ref::mpfr_value;
#include <map>
#include <unistd.h>
using namespace lu;

static const Q SC[6] = {Q(1), Q(2), Q(1, 3), Q(7, 5), Q(Z(1), Z::pow(10, 17)), Q(Z::pow(2, 70), Z(9))};
#define H(p) ((p)->content_hash)

static void step_x(const SLIP_matrix *x) { mc::step(content(x)); }

// ------------------------------------------------------------------ S01, S02
static void run_solve(const Fam &fam, uint64_t idx, bool want_singular)
{
    Spec s = fam.get(idx); int n = s.n; Mat A = s.dense(), B = rhs(n), X; int nb = (int) B[0].size();
    Z det = ref::det_solve(A, B, X);
    session_open();
    uint64_t live0 = xa::live;
    SLIP_matrix *a = make_csc(s), *b = make_dense(B, n, nb);
    uint64_t k = idx; Q sa = SC[k % 6], sb = SC[(k / 6) % 6];
    int64_t poison; uint64_t mid = xa::live;
    int ci = 0;
    for (const Cfg &c : configs_for(fam.level, idx)) {
        SLIP_options o = opt(c); ci++;
        if (fam.n < 5000 || ci % 3 == 1) { sa = SC[(k + ci) % 6]; sb = SC[(k / 6 + ci / 2) % 6]; }
        Q factor = sa / sb;
        if (!want_singular) { set_scale(a, sa); set_scale(b, sb); }
        if (want_singular) {
            Fac f; SLIP_info r = SLIP_LU_analyze(&f.S, a, &o); REQ(r == SLIP_OK, "[%s] analyze returned %s", cfgstr(c).c_str(), info_name(r));
            uint64_t l0 = xa::live;
            f.L = f.U = f.rhos = (SLIP_matrix *) &poison; f.pinv = &poison;
            r = SLIP_LU_factorize(&f.L, &f.U, &f.rhos, &f.pinv, a, f.S, &o);
            mc::step(mc::mix((uint64_t) (int64_t) r, r == SLIP_OK ? f.hash(n) : 0));
            if (det.sgn() == 0) {
                mc::outcome(1);
                REQ(r == SLIP_SINGULAR, "[%s] the determinant is zero but factorize returned %s", cfgstr(c).c_str(), info_name(r));
                REQ(!f.L && !f.U && !f.rhos && !f.pinv, "[%s] singular, but a factor, the pivots or the permutation were returned", cfgstr(c).c_str());
                REQ(xa::live == l0, "[%s] singular: %lld block(s) leaked", cfgstr(c).c_str(), (long long) (xa::live - l0));
                SLIP_matrix *x = (SLIP_matrix *) &poison; f.clear(); l0 = xa::live;
                r = SLIP_backslash(&x, ci % 3 == 0 ? SLIP_FP64 : ci % 3 == 1 ? SLIP_MPQ : SLIP_MPFR, a, b, &o); mc::step((uint64_t) (int64_t) r);
                REQ(r == SLIP_SINGULAR, "[%s] the determinant is zero but backslash returned %s", cfgstr(c).c_str(), info_name(r));
                REQ(!x, "[%s] singular, but a solution was returned", cfgstr(c).c_str());
                REQ(xa::live == l0, "[%s] singular: backslash leaked %lld block(s)", cfgstr(c).c_str(), (long long) (xa::live - l0));
            } else {
                mc::outcome(0);
                REQ(r == SLIP_OK, "[%s] the determinant is %s but factorize returned %s", cfgstr(c).c_str(), det.str().c_str(), info_name(r));
                f.clear();
            }
            mc::trace();
            continue;
        }
        if (det.sgn() == 0) { mc::outcome(1); break; }
        mc::outcome(0);
        // three calls
        Fac f; SLIP_info r = SLIP_LU_analyze(&f.S, a, &o); REQ(r == SLIP_OK, "[%s] analyze returned %s", cfgstr(c).c_str(), info_name(r));
        r = SLIP_LU_factorize(&f.L, &f.U, &f.rhos, &f.pinv, a, f.S, &o); REQ(r == SLIP_OK, "[%s] factorize returned %s", cfgstr(c).c_str(), info_name(r));
        o.check = ci & 1;
        SLIP_matrix *x = nullptr;
        r = SLIP_LU_solve(&x, b, a, f.L, f.U, f.rhos, f.S, f.pinv, &o); REQ(r == SLIP_OK, "[%s] solve returned %s", optstr(&o).c_str(), info_name(r));
        mc::nstep(2); step_x(x);
        std::string e = lu::check_solution(x, X, det, factor, n, nb);
        REQ(e.empty(), "[%s, scale(A)=%s, scale(b)=%s] %s", optstr(&o).c_str(), sa.str().c_str(), sb.str().c_str(), e.c_str());
        mfree(x); f.clear(); mc::trace();
        // one call
        if (fam.level == 0 || ci % 4 == 1) {
            o.check = !o.check;
            r = SLIP_backslash(&x, SLIP_MPQ, a, b, &o); REQ(r == SLIP_OK, "[%s] backslash returned %s", optstr(&o).c_str(), info_name(r));
            step_x(x); e = lu::check_solution(x, X, det, factor, n, nb);
            REQ(e.empty(), "[backslash, %s, scale(A)=%s, scale(b)=%s] %s", optstr(&o).c_str(), sa.str().c_str(), sb.str().c_str(), e.c_str());
            mfree(x); mc::trace();
        }
        REQ(xa::live == mid, "[%s] %lld block(s) leaked", optstr(&o).c_str(), (long long) (xa::live - mid));
    }
    if (!want_singular) { set_scale(a, Q(1)); set_scale(b, Q(1)); }
    mfree(a); mfree(b); (void) live0;
    session_close();
}
// the empty system: a matrix with no rows has determinant one
static void run_empty(uint64_t idx)
{
    mc::Dec d(idx); int nb = (int) d(4); SLIP_options o = defopt(); o.pivot = (SLIP_pivot) d(6); o.order = (SLIP_col_order) d(3); o.check = d(2);
    session_open(); Spec s; SLIP_matrix *a = make_csc(s), *b = make_dense(ref::zeros(0, nb), 0, nb); set_scale(a, SC[idx % 6]); uint64_t l0 = xa::live;
    for (SLIP_type t : {SLIP_MPQ, SLIP_FP64, SLIP_MPFR}) {
        SLIP_matrix *x = nullptr; SLIP_info r = SLIP_backslash(&x, t, a, b, &o); mc::step(mc::mix(r, content(x))); mc::trace();
        REQ(r == SLIP_OK && x && x->m == 0 && x->n == nb && x->type == t && x->kind == SLIP_DENSE, "[%s] %d right-hand sides: backslash returned %s", optstr(&o).c_str(), nb, info_name(r));
        mfree(x); REQ(xa::live == l0, "leak");
    }
    set_scale(a, Q(1)); mfree(a); mfree(b); session_close();
}
// S01: number of right-hand sides (0 included), every 0/1 combination, and scale pairs on one matrix per dimension
static void run_rhs(int n, int nb, int seed, int sai, int sbi)
{
    Spec s; s.m = s.n = n; for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) if (i == j || (i * 3 + j + seed) % 3) s.e.push_back(Entry{i, j, generic(i, j, n, seed)});
    Mat A = s.dense(), B = ref::zeros(n, nb), X;
    for (int j = 0; j < nb; j++) for (int i = 0; i < n; i++) { int k = (i * 5 + j * 3 + seed) % 7; B[i][j] = k == 0 ? Z::pow(2, 90) : k < 3 ? Z(0) : Z(k - 5); }
    Mat B1 = B; if (!nb) B1 = ref::zeros(n, 1);
    Z det = ref::det_solve(A, B1, X); if (det.sgn() == 0) { mc::outcome(1); return; }
    mc::outcome(0);
    session_open(); SLIP_matrix *a = make_csc(s), *b = make_dense(B, n, nb); set_scale(a, SC[sai]); set_scale(b, SC[sbi]);
    for (int p = 0; p < 6; p++) {
        SLIP_options o = defopt(); o.pivot = (SLIP_pivot) p; o.order = (SLIP_col_order) (p % 3); o.check = (seed + p) & 1;
        SLIP_matrix *x = nullptr; SLIP_info r = SLIP_backslash(&x, SLIP_MPQ, a, b, &o); REQ(r == SLIP_OK, "[%s] backslash returned %s", optstr(&o).c_str(), info_name(r));
        std::string e = lu::check_solution(x, X, det, SC[sai] / SC[sbi], n, nb); step_x(x); mc::trace();
        REQ(e.empty(), "[%s, scale(A)=%s, scale(b)=%s] %s", optstr(&o).c_str(), SC[sai].str().c_str(), SC[sbi].str().c_str(), e.c_str());
        mfree(x);
    }
    mfree(a); mfree(b); session_close();
}

// ------------------------------------------------------------------ S03, S04
static void run_factors(const Fam &fam, uint64_t idx, bool pivots)
{
    Spec s = fam.get(idx); int n = s.n; Mat A = s.dense();
    session_open(); SLIP_matrix *a = make_csc(s);
    for (const Cfg &c : configs_for(fam.level, idx)) {
        SLIP_options o = opt(c); Fac f;
        SLIP_info r = SLIP_LU_analyze(&f.S, a, &o); REQ(r == SLIP_OK, "[%s] analyze returned %s", cfgstr(c).c_str(), info_name(r));
        r = SLIP_LU_factorize(&f.L, &f.U, &f.rhos, &f.pinv, a, f.S, &o);
        REQ(r == SLIP_OK || r == SLIP_SINGULAR, "[%s] factorize returned %s", cfgstr(c).c_str(), info_name(r));
        mc::nstep(1); mc::outcome(r == SLIP_OK ? 0 : 1);
        if (r == SLIP_OK) {
            mc::step(f.hash(n));
            std::string e = pivots ? check_pivots(A, n, f.S->q, f, &o) : check_factors(A, n, f.S->q, f);
            REQ(e.empty(), "[%s] %s", cfgstr(c).c_str(), e.c_str()); mc::trace();
        }
        f.clear();
    }
    mfree(a); session_close();
}
// user-made analyses: any column order, any size estimates from n up
static void run_user_S(int n, uint64_t idx, bool pivots, int estimates)
{
    uint64_t pats = 1ull << (n * n); mc::Dec d(idx);
    uint64_t pat = d(pats); int64_t lnz = n + (int64_t) d(estimates), unz = n + (int64_t) d(estimates); int piv = (int) d(6);
    Spec s; s.m = s.n = n; for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) if (pat >> (j * n + i) & 1) s.e.push_back(Entry{i, j, generic(i, j, n, 1)});
    Mat A = s.dense(), E(n), X; if (ref::det_solve(A, E, X).sgn() == 0) { mc::outcome(1); return; }
    session_open(); SLIP_matrix *a = make_csc(s); SLIP_options o = defopt(); o.pivot = (SLIP_pivot) piv; o.tol = 0.5;
    std::vector<int64_t> q(n); for (int i = 0; i < n; i++) q[i] = i;
    do {
        Fac f; f.S = make_S(q, lnz, unz);
        SLIP_info r = SLIP_LU_factorize(&f.L, &f.U, &f.rhos, &f.pinv, a, f.S, &o);
        REQ(r == SLIP_OK, "[lnz=%d unz=%d %s] factorize of a nonsingular matrix returned %s", (int) lnz, (int) unz, optstr(&o).c_str(), info_name(r));
        mc::outcome(0); mc::step(f.hash(n));
        std::string e = pivots ? check_pivots(A, n, q.data(), f, &o) : check_factors(A, n, q.data(), f);
        REQ(e.empty(), "[column order given by the user, lnz=%d unz=%d %s] %s", (int) lnz, (int) unz, optstr(&o).c_str(), e.c_str());
        mc::trace(); f.clear();
    } while (std::next_permutation(q.begin(), q.end()));
    mfree(a); session_close();
}
static void run_user_S_big(uint64_t idx, bool pivots, bool large = false)
{
    mc::Dec d(idx); int sh = (int) d(14), n = 6 + (int) d(large ? 9 : 10), e1 = (int) d(5), e2 = (int) d(5), qk = (int) d(3);
    static const Fam *st = nullptr, *lg = nullptr; static std::vector<Fam> keep;
    if (!st) { keep = families(false); for (auto &f : keep) { if (f.name == "structured") st = &f; if (f.name == "large-structured") lg = &f; } }
    Spec s = large ? lg->get((uint64_t) ((n - 6) * 14 + sh) * 4 + (qk == 2)) : st->get((uint64_t) sh + 14ull * ((n - 5) * 4 + 1)); Mat A = s.dense(), E(n), X; n = s.n;
    if (ref::det_solve(A, E, X).sgn() == 0) { mc::outcome(1); return; }
    session_open(); SLIP_matrix *a = make_csc(s); SLIP_options o = defopt(); o.pivot = (SLIP_pivot) ((sh + n + e1 + 2 * e2 + qk) % 6);
    std::vector<int64_t> q(n); for (int i = 0; i < n; i++) q[i] = qk == 0 ? i : qk == 1 ? n - 1 - i : (i * 7 + 3) % n;
    std::vector<int64_t> t = q; std::sort(t.begin(), t.end()); for (int i = 0; i < n; i++) if (t[i] != i) { for (int k = 0; k < n; k++) q[k] = (k + 2) % n; break; }
    static const int ex[5] = {0, 1, 3, 11, 40};
    Fac f; f.S = make_S(q, n + ex[e1], n + ex[e2]);
    SLIP_info r = SLIP_LU_factorize(&f.L, &f.U, &f.rhos, &f.pinv, a, f.S, &o);
    REQ(r == SLIP_OK, "[lnz=%d unz=%d] factorize of a nonsingular matrix returned %s", n + ex[e1], n + ex[e2], info_name(r));
    mc::outcome(0); mc::step(f.hash(n)); std::string e = pivots ? check_pivots(A, n, q.data(), f, &o) : check_factors(A, n, q.data(), f);
    REQ(e.empty(), "[column order given by the user, lnz=%d unz=%d %s] %s", n + ex[e1], n + ex[e2], optstr(&o).c_str(), e.c_str());
    mc::trace(); f.clear(); mfree(a); session_close();
}

// ------------------------------------------------------------------ S05
static SLIP_LU_analysis *analyze_ok(SLIP_matrix *a, const SLIP_options *o, int n, const char *what)
{
    SLIP_LU_analysis *S = nullptr; SLIP_info r = SLIP_LU_analyze(&S, a, o);
    REQ(r == SLIP_OK && S, "[%s] %s: analyze returned %s", optstr(o).c_str(), what, info_name(r));
    std::vector<char> seen(n, 0);
    for (int k = 0; k < n; k++) { REQ(S->q[k] >= 0 && S->q[k] < n && !seen[S->q[k]], "[%s] %s: q[%d] = %lld, the ordering is not a permutation", optstr(o).c_str(), what, k, (long long) S->q[k]); seen[S->q[k]] = 1; }
    REQ(S->lnz >= n && S->unz >= n, "[%s] %s: size estimates %lld and %lld for dimension %d", optstr(o).c_str(), what, (long long) S->lnz, (long long) S->unz, n);
    REQ((double) S->lnz <= 1e7 && (double) S->unz <= 1e7, "[%s] %s: size estimates %lld and %lld for dimension %d cannot be allocated", optstr(o).c_str(), what, (long long) S->lnz, (long long) S->unz, n);
    mc::step(snapshot(S, n)); return S;
}
static void sfree(SLIP_LU_analysis *&S) { SLIP_info r = SLIP_LU_analysis_free(&S, nullptr); REQ(r == SLIP_OK && !S, "freeing an analysis returned %s", info_name(r)); }
static void analyze_case(const Spec &s, int orders = 3)
{
    int n = s.n; session_open(); SLIP_matrix *a = make_csc(s);
    for (int od = 0; od < orders; od++) {
        SLIP_options o = defopt(); o.order = (SLIP_col_order) od;
        xa::fill = 0xCD; SLIP_LU_analysis *S = analyze_ok(a, &o, n, "fresh memory 0xCD"); uint64_t h = snapshot(S, n);
        if (od == SLIP_NO_ORDERING) for (int k = 0; k < n; k++) REQ(S->q[k] == k, "no ordering requested, but q[%d] = %lld", k, (long long) S->q[k]);
        sfree(S);
        xa::fill = 0xFF; S = analyze_ok(a, &o, n, "fresh memory 0xFF");
        REQ(snapshot(S, n) == h, "[%s] the analysis depends on uninitialised memory", optstr(&o).c_str()); sfree(S); xa::fill = 0xCD;
        // other values, other type, scale: same analysis
        SLIP_matrix *c = make_csc(with_values(s, 2)); set_scale(c, Q(7, 3)); o.pivot = SLIP_LARGEST; o.tol = 0.25; o.check = true;
        S = analyze_ok(c, &o, n, "other values"); REQ(snapshot(S, n) == h, "[%s] the analysis depends on the values", optstr(&o).c_str()); sfree(S); mfree(c);
        mc::trace();
    }
    mfree(a); session_close();
}
static void analyze_oom(const Spec &s)
{
    int n = s.n; session_open(); SLIP_matrix *a = make_csc(s);
    for (int od = 0; od < 3; od++) for (int mode = 0; mode < 2; mode++) for (uint64_t k = 1;; k++) {
        SLIP_options o = defopt(); o.order = (SLIP_col_order) od; SLIP_LU_analysis *S = nullptr; uint64_t l0 = xa::live;
        if (mode) xa::arm_from(k); else xa::arm(k);
        SLIP_info r = SLIP_LU_analyze(&S, a, &o); uint64_t failed = xa::failed; xa::disarm();
        mc::step(mc::mix((uint64_t) (int64_t) r, snapshot(S, n)));
        if (r == SLIP_OK) {
            REQ(S, "[%s] allocation %llu failed: success without an analysis", optstr(&o).c_str(), (unsigned long long) k);
            std::vector<char> seen(n, 0);
            for (int t = 0; t < n; t++) { REQ(S->q[t] >= 0 && S->q[t] < n && !seen[S->q[t]], "[%s] allocation %llu failed inside the ordering: success with q[%d] = %lld, not a permutation", optstr(&o).c_str(), (unsigned long long) k, t, (long long) S->q[t]); seen[S->q[t]] = 1; }
            REQ(S->lnz >= n && S->unz >= n && S->lnz < 10000000 && S->unz < 10000000, "[%s] allocation %llu failed: success with size estimates %lld, %lld", optstr(&o).c_str(), (unsigned long long) k, (long long) S->lnz, (long long) S->unz);
            sfree(S);
        } else REQ(!S, "[%s] allocation %llu failed: %s with an analysis", optstr(&o).c_str(), (unsigned long long) k, info_name(r));
        REQ(xa::live == l0, "[%s] allocation %llu failed: %lld block(s) leaked", optstr(&o).c_str(), (unsigned long long) k, (long long) (xa::live - l0));
        mc::trace(); mc::outcome(failed ? 2 : 0);
        if (!failed) break;
    }
    mfree(a); session_close();
}
static void analyze_bad(uint64_t idx)
{   // a defective pattern: COLAMD and AMD diagnose it; the error must come through
    mc::Dec d(idx); int od = 1 + (int) d(2), n = 1 + (int) d(4), kind = (int) d(5), pos = (int) d(16); uint64_t pat = d(8);
    Spec s; s.m = s.n = n; for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) if (i == j || ((i * 3 + j * 5 + pat) % 3 == 0)) s.e.push_back(Entry{i, j, Z(1)});
    session_open(); SLIP_matrix *a = make_csc(s); int nz = (int) s.e.size(); int64_t keep[40], kp[10]; memcpy(keep, a->i, nz * 8); memcpy(kp, a->p, (n + 1) * 8); bool bad = true;
    switch (kind) {
    case 0: a->i[pos % nz] = n; break;
    case 1: a->i[pos % nz] = -1; break;
    case 2: a->i[pos % nz] = INT64_MAX / 4; break;
    case 3: a->i[pos % nz] = INT64_MIN / 2; break;
    case 4: { int j = pos % n; if (j + 1 < n && a->p[j + 1] > 0) a->p[j + 1] = a->p[j + 2] + 1; if (j + 1 >= n || a->p[j + 1] > nz) { memcpy(a->p, kp, (n + 1) * 8); bad = false; } else bad = a->p[j + 1] > a->p[j + 2]; } break;
    }
    SLIP_options o = defopt(); o.order = (SLIP_col_order) od; SLIP_LU_analysis *S = nullptr; uint64_t l0 = xa::live;
    SLIP_info r = SLIP_LU_analyze(&S, a, &o); mc::step((uint64_t) (int64_t) r); mc::trace(); mc::outcome(r == SLIP_OK ? 0 : 3);
    if (bad) { REQ(r != SLIP_OK && !S, "[%s] the pattern is invalid (the ordering code refuses it) but analyze returned %s", optstr(&o).c_str(), info_name(r)); }
    if (S) sfree(S);
    REQ(xa::live == l0, "[%s] invalid pattern: %lld block(s) leaked", optstr(&o).c_str(), (long long) (xa::live - l0));
    memcpy(a->i, keep, nz * 8); memcpy(a->p, kp, (n + 1) * 8); mfree(a); session_close();
}
static Spec pattern(int n, uint64_t bits)
{
    Spec s; s.m = s.n = n; for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) if (bits >> (j * n + i) & 1) s.e.push_back(Entry{i, j, Z(1 + ((i + j) & 1))}); return s;
}
static Spec big_pattern(uint64_t idx)
{   // larger patterns, with dense rows and columns, empty rows and columns, unsorted
    mc::Dec d(idx); int n = 15 + 3 * (int) d(8), nd = (int) d(4), nc = (int) d(3), ne = (int) d(3), kind = (int) d(5), rev = (int) d(2);
    std::vector<std::vector<char>> p(n, std::vector<char>(n, 0));
    for (int i = 0; i < n; i++) { p[i][i] = 1; if (kind == 0 && i) p[i][i - 1] = 1; if (kind == 1) p[i][(i * 2) % n] = 1; if (kind == 2 && i + 3 < n) p[i][i + 3] = p[i + 3][i] = 1; if (kind == 3) for (int j = i - i % 4; j < n && j < i - i % 4 + 4; j++) p[i][j] = 1; if (kind == 4) { p[i][i] = 0; p[i][n - 1 - i] = 1; } }
    for (int k = 0; k < nd; k++) for (int j = 0; j < n; j++) p[(k * 5 + 1) % n][j] = 1;
    for (int k = 0; k < nc; k++) for (int j = 0; j < n; j++) p[j][(k * 7 + 2) % n] = 1;
    for (int k = 0; k < ne; k++) { int e = (k * 4 + 3) % n; for (int j = 0; j < n; j++) p[e][j] = p[j][e] = 0; }
    Spec s; s.m = s.n = n; for (int j = 0; j < n; j++) for (int t = 0; t < n; t++) { int i = rev ? n - 1 - t : t; if (p[i][j]) s.e.push_back(Entry{i, j, Z(1)}); }
    return s;
}

// ------------------------------------------------------------------ S06
static std::string check_fp(const SLIP_matrix *x, const Mat &X, const Z &det, const Q &factor, int n, int nb, SLIP_type type, int prec, mpfr_rnd_t rnd)
{
    if (!x) return "no solution";
    std::string e = valid(x); if (!e.empty()) return "malformed: " + e;
    if (x->kind != SLIP_DENSE || x->type != type || x->m != n || x->n != nb) return "wrong shape, kind or type";
    for (int j = 0; j < nb; j++) for (int i = 0; i < n; i++) {
        Q want = Q(X[i][j], det) * factor; int64_t p = i + (int64_t) j * n;
        if (type == SLIP_FP64) {
            double v = x->x.fp64[p]; static const Q top(Z::pow(2, 1024), Z(1)); if (!(want.abs() < top)) continue;
            if (!std::isfinite(v)) return mc::fmt("x(%d,%d) is %g, exact %s", i, j, v, want.str().c_str());
            double lo = nextafter(v, -INFINITY), hi = nextafter(v, INFINITY);
            if (!std::isfinite(lo) || !std::isfinite(hi)) continue;
            if (!(Q(lo) < want && want < Q(hi))) return mc::fmt("x(%d,%d) is %.20g, exact value %s is not between its neighbours", i, j, v, want.str().c_str());
            if (want.sgn() == 0 && (v != 0)) return "zero became nonzero";
        } else {
            if (mpfr_get_prec(x->x.mpfr[p]) != prec) return mc::fmt("x(%d,%d) has precision %ld, requested %d", i, j, (long) mpfr_get_prec(x->x.mpfr[p]), prec);
            if (!mpfr_number_p(x->x.mpfr[p])) return mc::fmt("x(%d,%d) is not a number", i, j);
            Q w = round_q(want, prec, rnd), v = mpfr_value(x->x.mpfr[p]);
            if (v != w) return mc::fmt("x(%d,%d) is %s, exact value %s rounded to %d bits is %s", i, j, v.str().c_str(), want.str().c_str(), prec, w.str().c_str());
        }
    }
    return "";
}
static const mpfr_rnd_t RND[5] = {MPFR_RNDN, MPFR_RNDZ, MPFR_RNDU, MPFR_RNDD, MPFR_RNDA};
static void run_fp(const Fam &fam, uint64_t idx, const std::vector<int> &precs)
{
    Spec s = fam.get(idx); int n = s.n; Mat A = s.dense(), B = rhs(n), X; int nb = (int) B[0].size();
    Z det = ref::det_solve(A, B, X); if (det.sgn() == 0) { mc::outcome(1); return; }
    mc::outcome(0);
    session_open(); SLIP_matrix *a = make_csc(s), *b = make_dense(B, n, nb); uint64_t live = xa::live;
    Q sa = SC[idx % 6], sb = SC[idx / 6 % 6]; set_scale(a, sa); set_scale(b, sb); Q factor = sa / sb; live = xa::live;
    SLIP_options o = defopt(); auto cf = configs_for(fam.level, idx); Cfg c = cf[idx % cf.size()]; o.pivot = (SLIP_pivot) c.pivot; o.order = (SLIP_col_order) c.order; o.tol = c.tol;
    SLIP_matrix *x = nullptr;
    for (int prec : precs) for (int r = 0; r < 5; r++) {
        o.prec = prec; o.round = RND[r]; o.check = r & 1;
        SLIP_info st = SLIP_backslash(&x, SLIP_MPFR, a, b, &o); REQ(st == SLIP_OK, "[%s] backslash returned %s", optstr(&o).c_str(), info_name(st));
        std::string e = check_fp(x, X, det, factor, n, nb, SLIP_MPFR, prec, RND[r]); step_x(x); mc::trace();
        REQ(e.empty(), "[MPFR, %s, scale(A)=%s scale(b)=%s] %s", optstr(&o).c_str(), sa.str().c_str(), sb.str().c_str(), e.c_str()); mfree(x);
    }
    SLIP_info st = SLIP_backslash(&x, SLIP_FP64, a, b, &o); REQ(st == SLIP_OK, "[%s] backslash returned %s", optstr(&o).c_str(), info_name(st));
    std::string e = check_fp(x, X, det, factor, n, nb, SLIP_FP64, 53, MPFR_RNDN); step_x(x); mc::trace();
    REQ(e.empty(), "[FP64, %s] %s", optstr(&o).c_str(), e.c_str()); mfree(x);
    for (int t : {(int) SLIP_MPZ, (int) SLIP_INT64, 5, -1, 77}) {
        int64_t poison; x = (SLIP_matrix *) &poison; uint64_t req = xa::live;
        st = SLIP_backslash(&x, (SLIP_type) t, a, b, &o); mc::step(mc::mix(77, st));
        REQ(st == SLIP_INCORRECT_INPUT, "output type %d: backslash returned %s", t, info_name(st));
        REQ(x == nullptr || x == (SLIP_matrix *) &poison, "output type %d: a result was produced", t); REQ(xa::live == req, "output type %d: leak", t);
        x = nullptr;
    }
    mfree(a); mfree(b); session_close();
}
// exact values chosen to hit ties, halfway cases, carries and the double range: 1-by-1 systems
static void run_fp_value(uint64_t idx, bool th)
{
    mc::Dec d(idx); int k = (int) d(th ? 400 : 120), neg = (int) d(2), den = (int) d(6), pi = (int) d(8);
    static const int precs[8] = {1, 2, 3, 24, 53, 64, 65, 128};
    int prec = precs[pi] < MPFR_PREC_MIN ? MPFR_PREC_MIN : precs[pi]; 
    Z num; static const int dens[6] = {1, 3, 7, 1024, 10, 999983};
    if (k < 40) num = Z(k); else if (k < 60) num = Z::pow(2, 53) + Z(k - 50); else if (k < 80) num = Z::pow(2, 54) + Z((k - 70) * 2 + 1); else if (k < 90) num = Z::pow(2, 64) - Z(k - 80); else if (k < 100) num = Z::pow(2, 129) + Z(k - 95); else if (k < 110) num = Z::pow(2, 1020) + Z::pow(2, 960 + k - 100); else if (k < 120) num = Z::pow(10, (k - 109) * 20) + Z(k);
    else num = Z::pow(3, k - 100) + Z(k);
    if (neg) num = -num;
    Spec s; s.m = s.n = 1; s.e.push_back(Entry{0, 0, Z(dens[den])}); Mat B = ref::zeros(1, 1); B[0][0] = num; Mat X; Z det = ref::det_solve(s.dense(), B, X);
    session_open(); SLIP_matrix *a = make_csc(s), *b = make_dense(B, 1, 1), *x = nullptr; SLIP_options o = defopt(); o.prec = prec;
    std::vector<Q> scales = {Q(1), Q(Z(1), Z::pow(2, 900)), Q(Z(1), Z::pow(2, 1060))};
    for (auto &sc : scales) for (int r = 0; r < 5; r++) {
        set_scale(a, sc); o.round = RND[r];
        SLIP_info st = SLIP_backslash(&x, SLIP_MPFR, a, b, &o); REQ(st == SLIP_OK, "backslash returned %s", info_name(st));
        std::string e = check_fp(x, X, det, sc, 1, 1, SLIP_MPFR, prec, RND[r]); step_x(x); mc::trace(); REQ(e.empty(), "[MPFR, %s] %s", optstr(&o).c_str(), e.c_str()); mfree(x);
        if (r == 0 && pi == 0) {
            st = SLIP_backslash(&x, SLIP_FP64, a, b, &o); REQ(st == SLIP_OK, "backslash returned %s", info_name(st));
            e = check_fp(x, X, det, sc, 1, 1, SLIP_FP64, 53, MPFR_RNDN); step_x(x); mc::trace(); REQ(e.empty(), "[FP64] %s", e.c_str()); mfree(x);
        }
    }
    set_scale(a, Q(1)); mfree(a); mfree(b); session_close();
}

// ------------------------------------------------------------------ S20
struct Obs { uint64_t h = 0; void add(uint64_t v) { h = mc::mix(h, v); } };
static uint64_t pipeline(SLIP_matrix *a, SLIP_matrix *b, const SLIP_options *o, int n)
{   // everything observable from every call that takes options
    Obs ob; Fac f; SLIP_info r;
    r = SLIP_matrix_check(a, o); ob.add(r); r = SLIP_matrix_check(b, o); ob.add(r); ob.add(SLIP_matrix_nnz(a, o));
    r = SLIP_LU_analyze(&f.S, a, o); ob.add(r); REQ(r == SLIP_OK, "analyze returned %s", info_name(r)); ob.add(snapshot(f.S, n));
    r = SLIP_LU_factorize(&f.L, &f.U, &f.rhos, &f.pinv, a, f.S, o); ob.add(r); mc::nstep(4);
    if (r == SLIP_OK) {
        ob.add(f.hash(n)); SLIP_matrix *x = nullptr; ob.add(SLIP_matrix_check(f.L, o)); ob.add(SLIP_matrix_check(f.rhos, o));
        r = SLIP_LU_solve(&x, b, a, f.L, f.U, f.rhos, f.S, f.pinv, o); ob.add(r); ob.add(content(x)); if (x) { ob.add(SLIP_matrix_check(x, o)); mfree(x); }
    }
    f.clear();
    for (SLIP_type t : {SLIP_MPQ, SLIP_FP64, SLIP_MPFR}) { SLIP_matrix *x = nullptr; r = SLIP_backslash(&x, t, a, b, o); ob.add(r); ob.add(content(x)); if (x) { ob.add(SLIP_matrix_check(x, o)); mfree(x); } mc::nstep(1); }
    for (int k = 0; k < 3; k++) for (int t = 0; t < 5; t++) { SLIP_matrix *x = nullptr; r = SLIP_matrix_copy(&x, (SLIP_kind) k, (SLIP_type) t, a, o); ob.add(r); ob.add(content(x)); if (x) { ob.add(SLIP_matrix_check(x, o)); mfree(x); } mc::nstep(1); }
    SLIP_matrix *bad = nullptr; r = SLIP_matrix_check(nullptr, o); ob.add(r); r = SLIP_matrix_copy(&bad, SLIP_CSC, (SLIP_type) 9, a, o); ob.add(r); r = SLIP_backslash(&bad, SLIP_MPQ, b, b, o); ob.add(r); r = SLIP_matrix_allocate(&bad, SLIP_CSC, SLIP_MPZ, -1, 2, 3, false, true, o); ob.add(r);
    // invalid matrix
    int64_t keep = a->p[n] ? a->i[0] : 0; if (a->p[n]) { a->i[0] = n + 7; ob.add(SLIP_matrix_check(a, o)); a->i[0] = keep; }
    int64_t kp = a->p[0]; a->p[0] = -1; ob.add(SLIP_matrix_check(a, o)); a->p[0] = kp;
    mc::step(ob.h); return ob.h;
}
static off_t out_pos() { fflush(stdout); fflush(stderr); return lseek(1, 0, SEEK_END); }
static void run_options(const Fam &fam, uint64_t idx)
{
    Spec s = fam.get(idx); int n = s.n; Mat B = rhs(n); int nb = (int) B[0].size();
    session_open(); SLIP_matrix *a = make_csc(s), *b = make_dense(B, n, nb); set_scale(a, SC[idx % 6]);
    // defaults
    SLIP_options *d = SLIP_create_default_options(); REQ(d, "no default options");
    REQ(d->pivot == SLIP_TOL_SMALLEST && d->order == SLIP_COLAMD && d->tol == 1 && d->print_level == 0 && d->prec == 128 && d->round == MPFR_RNDN && d->check == false, "the default options are not the documented ones: %s", optstr(d).c_str());
    xp::reset(); off_t p0 = out_pos();
    uint64_t hn = pipeline(a, b, nullptr, n), hd = pipeline(a, b, d, n);
    REQ(hn == hd, "null options and default options give different results");
    REQ(xp::lines == 0 && out_pos() == p0, "print level 0 printed something (%llu calls of the print function, %lld bytes elsewhere)", (unsigned long long) xp::lines, (long long) (out_pos() - p0));
    SLIP_free(d);
    auto cf = configs(1); Cfg c = cf[idx % cf.size()]; SLIP_options o = opt(c); o.prec = 60 + (int) (idx % 9); o.round = RND[idx % 5];
    uint64_t h0 = pipeline(a, b, &o, n); REQ(xp::lines == 0 && out_pos() == p0, "[%s] print level 0 printed something", optstr(&o).c_str());
    for (int pr : {0, 1, 2, 3, 4, -1}) for (int ck = 0; ck < 2; ck++) {
        o.print_level = pr; o.check = ck; xp::reset(); p0 = out_pos(); SLIP_options snap = o;
        uint64_t h = pipeline(a, b, &o, n);
        REQ(h == h0, "[%s] the print level or the solution check changed a result or status", optstr(&o).c_str());
        REQ(!memcmp(&snap, &o, sizeof o), "[%s] the options were changed", optstr(&o).c_str());
        REQ(out_pos() == p0, "[%s] %lld bytes were printed without the print function", optstr(&o).c_str(), (long long) (out_pos() - p0));
        if (pr <= 0) REQ(xp::lines == 0, "[%s] printed at print level %d", optstr(&o).c_str(), pr);
        if (pr >= 3) REQ(xp::lines > 0, "[%s] nothing printed at print level %d", optstr(&o).c_str(), pr);
        mc::outcome(xp::lines ? 4 : 5); mc::trace();
    }
    o.print_level = 3; SuiteSparse_config.printf_func = nullptr; p0 = out_pos();
    uint64_t h = pipeline(a, b, &o, n); REQ(h == h0, "without a print function the results differ"); REQ(out_pos() == p0, "printed without a print function"); mc::trace();
    SuiteSparse_config.printf_func = xp::xprintf;
    mfree(a); mfree(b); session_close();
}

// ------------------------------------------------------------------ S21
static std::string satisfied(const Mat &A, const Mat &B, const Q &factor, const SLIP_matrix *x, int n, int nb, bool &ok)
{   // A x / factor == B ?
    std::string e = valid(x); if (!e.empty()) return e;
    ok = true;
    for (int j = 0; j < nb && ok; j++) for (int i = 0; i < n && ok; i++) { Q s(0); for (int k = 0; k < n; k++) s = s + Q(A[i][k], Z(1)) * Q(x->x.mpq[k + (int64_t) j * n]); if (!(s == Q(B[i][j], Z(1)) * factor)) ok = false; }
    return "";
}
static int ndamage(int n) { (void) n; return 5 * 16 + 16 + 24 + 24 + 2; }
static void run_check(const Fam &fam, uint64_t idx)
{
    Spec s = fam.get(idx); int n = s.n; Mat A = s.dense(), B = rhs(n), X; 
    if (B[0].size() > 4) for (auto &row : B) { row.resize(4); }
    int nb = (int) B[0].size(); Z det = ref::det_solve(A, B, X); if (det.sgn() == 0) { mc::outcome(1); return; }
    session_open(); SLIP_matrix *a = make_csc(s), *b = make_dense(B, n, nb);
    auto cf = configs(1); SLIP_options o = opt(cf[idx % cf.size()]); Q factor(1);
    Fac f; SLIP_info r = SLIP_LU_analyze(&f.S, a, &o); REQ(r == SLIP_OK, "analyze: %s", info_name(r));
    r = SLIP_LU_factorize(&f.L, &f.U, &f.rhos, &f.pinv, a, f.S, &o); REQ(r == SLIP_OK, "factorize: %s", info_name(r));
    auto judge = [&](const std::string &what, bool only_true) {
        SLIP_matrix *x = nullptr; o.check = false; int64_t poison;
        r = SLIP_LU_solve(&x, b, a, f.L, f.U, f.rhos, f.S, f.pinv, &o); REQ(r == SLIP_OK, "%s: unchecked solve returned %s", what.c_str(), info_name(r));
        bool ok; std::string e = satisfied(A, B, factor, x, n, nb, ok); REQ(e.empty(), "%s: %s", what.c_str(), e.c_str());
        if (only_true) REQ(ok, "%s: the solution does not satisfy the system", what.c_str());
        uint64_t h = content(x); mfree(x); x = (SLIP_matrix *) &poison; o.check = true; uint64_t l0 = xa::live;
        r = SLIP_LU_solve(&x, b, a, f.L, f.U, f.rhos, f.S, f.pinv, &o); mc::nstep(1); mc::step(mc::mix(h, r)); mc::trace(); mc::outcome(ok ? 6 : 7);
        if (ok) { REQ(r == SLIP_OK, "%s: the solution satisfies the system, but the checked solve returned %s", what.c_str(), info_name(r)); REQ(content(x) == h, "%s: the solution check changed the solution", what.c_str()); mfree(x); }
        else { REQ(r == SLIP_INCORRECT, "%s: the solution does not satisfy the system, but the checked solve returned %s", what.c_str(), info_name(r)); REQ(!x, "%s: an incorrect solution was returned", what.c_str()); }
        REQ(xa::live == l0, "%s: %lld block(s) leaked", what.c_str(), (long long) (xa::live - l0));
    };
    for (auto &q : {SC[0], SC[3], SC[4]}) for (auto &p : {SC[0], SC[2], SC[5]}) { set_scale(a, q); set_scale(b, p); factor = q / p; judge(mc::fmt("undamaged, scale(A)=%s, scale(b)=%s", q.str().c_str(), p.str().c_str()), true); }
    set_scale(a, Q(1)); set_scale(b, Q(1)); factor = Q(1);
    auto damage = [&](mpz_t z, const char *what, int64_t k) {
        Z old(z);
        for (int m = 0; m < 5; m++) {
            Z v = m == 0 ? -old : m == 1 ? old + Z(1) : m == 2 ? old * Z(2) : m == 3 ? old + Z::pow(2, 70) : old - Z(1);
            if (v.sgn() == 0 || v == old) continue;
            mpz_set(z, v.v); judge(mc::fmt("%s[%lld] changed from %s to %s", what, (long long) k, old.str().c_str(), v.str().c_str()), false);
        }
        mpz_set(z, old.v);
    };
    for (int64_t k = 0; k < f.L->p[n]; k++) damage(f.L->x.mpz[k], "L->x", k);
    for (int64_t k = 0; k < f.U->p[n]; k++) damage(f.U->x.mpz[k], "U->x", k);
    for (int64_t k = 0; k < n; k++) damage(f.rhos->x.mpz[k], "rhos->x", k);
    for (int i = 0; i < n; i++) for (int k = 0; k < i; k++) {
        std::swap(f.pinv[i], f.pinv[k]); judge(mc::fmt("pinv[%d] and pinv[%d] exchanged", i, k), false); std::swap(f.pinv[i], f.pinv[k]);
        std::swap(f.S->q[i], f.S->q[k]); judge(mc::fmt("q[%d] and q[%d] exchanged", i, k), false); std::swap(f.S->q[i], f.S->q[k]);
    }
    // another matrix, another right-hand side
    for (int64_t k = 0; k < a->p[n]; k++) {
        Z old(a->x.mpz[k]); Z nv = old + Z(1); mpz_set(a->x.mpz[k], nv.v); Mat A0 = A; int j = 0; while (a->p[j + 1] <= k) j++;
        A[a->i[k]][j] = nv; judge(mc::fmt("A->x[%lld] changed after factorization", (long long) k), false); A = A0; mpz_set(a->x.mpz[k], old.v);
    }
    f.clear(); mfree(a); mfree(b); session_close();
}
// S21: single entries of b, every position, one right-hand side at a time (the check looks at every column)
static void run_check_one(const Fam &fam, uint64_t idx)
{
    Spec s = fam.get(idx); int n = s.n; Mat A = s.dense(), E(n), X0; if (ref::det_solve(A, E, X0).sgn() == 0) return;
    session_open(); SLIP_matrix *a = make_csc(s); SLIP_options o = defopt(); Fac f;
    SLIP_info r = SLIP_LU_analyze(&f.S, a, &o); REQ(r == SLIP_OK, "analyze: %s", info_name(r));
    r = SLIP_LU_factorize(&f.L, &f.U, &f.rhos, &f.pinv, a, f.S, &o); REQ(r == SLIP_OK, "factorize: %s", info_name(r));
    // factors of A, but solve with A' = A plus one in one place: wrong exactly where the column of x is nonzero
    for (int nbb = 1; nbb <= 3; nbb++) for (int col = 0; col < nbb; col++) for (int pos = 0; pos < n; pos++) {
        Mat B = ref::zeros(n, nbb); for (int j = 0; j < nbb; j++) if (j == col) B[pos][j] = Z(3);   // other columns zero: always right
        SLIP_matrix *b = make_dense(B, n, nbb);
        for (int64_t k = 0; k < a->p[n]; k++) {
            Z old(a->x.mpz[k]); mpz_set(a->x.mpz[k], (old + Z(1)).v); Mat A2 = A; int j = 0; while (a->p[j + 1] <= k) j++;
            A2[a->i[k]][j] = old + Z(1);
            SLIP_matrix *x = nullptr; o.check = false; r = SLIP_LU_solve(&x, b, a, f.L, f.U, f.rhos, f.S, f.pinv, &o); REQ(r == SLIP_OK, "solve: %s", info_name(r));
            bool ok; satisfied(A2, B, Q(1), x, n, nbb, ok); mfree(x); o.check = true;
            r = SLIP_LU_solve(&x, b, a, f.L, f.U, f.rhos, f.S, f.pinv, &o); mc::step(mc::mix(ok, r)); mc::trace(); mc::outcome(ok ? 6 : 7);
            REQ(r == (ok ? SLIP_OK : SLIP_INCORRECT), "the solution %s the system (entry %lld of A changed, %d right-hand sides, column %d row %d nonzero), but the checked solve returned %s", ok ? "satisfies" : "does not satisfy", (long long) k, nbb, col, pos, info_name(r));
            if (x) mfree(x);
            mpz_set(a->x.mpz[k], old.v);
        }
        mfree(b);
    }
    f.clear(); mfree(a); session_close();
}

// ------------------------------------------------------------------ dimensions beyond 16 bits
// unit triangular up to permutation: a forest with one +-1 on every edge, rows and columns relabelled; determinant +-1, every minor in {-1, 0, 1} for paths
static Spec wide_spec(uint64_t k, bool singular, bool same)
{   // same: A + A' is a forest too (AMD would fill in otherwise)
    mc::Dec d(k); int t = (int) d(4), rl = (int) d(3), cl = (int) d(3); if (same) cl = rl; const long n = WIDE_N; auto L = [&](int how, long i) { return (int) (how == 0 ? i : how == 1 ? n - 1 - i : i * 25013 % n); };
    Spec s; s.m = s.n = (int) n; long hole = singular ? 65536 + (long) (k % 3) * 2000 : -1;
    for (long j = 0; j < n; j++) {
        if (j != hole) s.e.push_back(Entry{L(rl, j), L(cl, j), Z(j % 3 ? 1 : -1)});
        if (t == 1 && j + 1 < n) s.e.push_back(Entry{L(rl, j + 1), L(cl, j), Z(j % 5 ? -1 : 1)});
        if (t == 2) for (long c : {2 * j + 1, 2 * j + 2}) if (c < n) s.e.push_back(Entry{L(rl, c), L(cl, j), Z(c % 4 ? 1 : -1)});
        if (t == 3 && j < n / 2) { if (j + 1 < n / 2) s.e.push_back(Entry{L(rl, j + 1), L(cl, j), Z(-1)}); s.e.push_back(Entry{L(rl, j + n / 2), L(cl, j), Z(1)}); }
    }
    return s;
}
static std::string wide_spec_str(uint64_t k) { mc::Dec d(k); static const char *T[4] = {"diagonal", "bidiagonal", "binary tree", "caterpillar"}; int t = (int) d(4), r = (int) d(3), c = (int) d(3); return mc::fmt("unit triangular %s pattern of dimension %d, row labelling %d, column labelling %d (that of the rows for AMD), pivot scheme %d, ordering %d", T[t], (int) WIDE_N, r, c, (int) (k % 6), (int) (k / 2 % 3)); }
static SLIP_options wide_opt(uint64_t k) { SLIP_options o = defopt(); o.pivot = (SLIP_pivot) (k % 6); o.order = (SLIP_col_order) (k / 2 % 3); o.check = k & 1; return o; }
// more than 65536 entries in one factor (or in both): dense unit triangular blocks; the diagonal is the only or the smallest candidate at every step
static const int TRI_N = 370; static const uint64_t TRI = 3 * 2 * 5;
static Spec tri_spec(uint64_t k)
{
    mc::Dec d(k); int t = (int) d(3), rev = (int) d(2), nb = t == 2 ? 2 : 1, n = TRI_N * nb; Spec s; s.m = s.n = n; auto L = [&](int i) { return rev ? n - 1 - i : i; };
    for (int j = 0; j < n; j++) {
        int q = j / TRI_N, b0 = q * TRI_N, b1 = b0 + TRI_N; bool low = t == 2 ? q == 0 : t == 0;
        s.e.push_back(Entry{L(j), L(j), Z(j % 3 ? 1 : -1)}); for (int i = low ? j + 1 : b0; i < (low ? b1 : j); i++) s.e.push_back(Entry{L(i), L(j), Z((i + j) % 2 ? 2 : -3)});
    }
    if (k % 4 == 3) std::reverse(s.e.begin(), s.e.end()); return s;
}
static SLIP_options tri_opt(uint64_t k) { static const SLIP_pivot PV[5] = {SLIP_SMALLEST, SLIP_DIAGONAL, SLIP_TOL_SMALLEST, SLIP_TOL_LARGEST, SLIP_SMALLEST}; SLIP_options o = defopt(); o.pivot = PV[k / 6 % 5]; o.tol = 0.25; o.order = SLIP_NO_ORDERING; o.check = k & 1; return o; }
static std::string tri_str(uint64_t k) { mc::Dec d(k); int t = (int) d(3), r = (int) d(2); return mc::fmt("dense unit %s triangle%s of dimension %d%s, no ordering, pivot scheme %d", t == 0 ? "lower" : t == 1 ? "upper" : "lower and upper", t == 2 ? "s side by side" : "", TRI_N, r ? ", rows and columns reversed" : "", (int) tri_opt(k).pivot); }
// 70001 right-hand sides for one small matrix, every solution small integers
static uint64_t widerhs_count() { return 3 * 3; }
static void run_wide_rhs(uint64_t k, SLIP_type t, bool check)
{
    mc::Dec d(k); int n = 1 + (int) d(3), v = (int) d(3), nb = 70001; SLIP_options o = defopt(); o.pivot = (SLIP_pivot) (k % 6); o.check = check; std::string w = optstr(&o); Spec s; s.m = s.n = n;
    for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) { long a = i == j ? 3 + v : (i * 2 + j + v) % 3 - 1; if (a) s.e.push_back(Entry{i, j, Z(a)}); }
    auto X = [&](int i, int j) { return (long) ((i * 7L + j * 5L + j / 1000) % 11) - 5; };
    session_open(); uint64_t l0 = xa::live; SLIP_matrix *a = make_csc(s), *b = nullptr, *x = nullptr; SLIP_info r = SLIP_matrix_allocate(&b, SLIP_DENSE, SLIP_MPZ, n, nb, (int64_t) n * nb, false, true, nullptr); REQ(r == SLIP_OK, "allocate");
    for (int j = 0; j < nb; j++) { std::vector<long> c((size_t) n, 0); for (auto &e : s.e) c[e.i] += mpz_get_si(e.v.v) * X(e.j, j); for (int i = 0; i < n; i++) mpz_set_si(b->x.mpz[i + (int64_t) j * n], c[i]); }
    r = SLIP_backslash(&x, t, a, b, &o); mc::trace(); mc::outcome(check ? 6 : 0); REQ(r == SLIP_OK && x && x->m == n && x->n == nb && x->type == t && x->kind == SLIP_DENSE, "[%s] backslash returned %s", w.c_str(), info_name(r)); mc::step(content(x));
    for (int j = 0; j < nb; j++) for (int i = 0; i < n; i++) { int64_t p = i + (int64_t) j * n; REQ(t == SLIP_MPQ ? mpq_cmp_si(x->x.mpq[p], X(i, j), 1) == 0 : t == SLIP_FP64 ? x->x.fp64[p] == X(i, j) : mpfr_cmp_si(x->x.mpfr[p], X(i, j)) == 0, "[%s] x(%d,%d) is not %ld", w.c_str(), i, j, X(i, j)); }
    mfree(x);
    if (check) for (int j : {k % 2 ? 65536 : 32769, nb - 1}) {   // one right-hand side changed after the solve cannot be seen through the API; change A instead so that only column j with a nonzero solution notices
        Fac f; r = SLIP_LU_analyze(&f.S, a, &o); REQ(r == SLIP_OK, "analyze"); r = SLIP_LU_factorize(&f.L, &f.U, &f.rhos, &f.pinv, a, f.S, &o); REQ(r == SLIP_OK, "factorize"); SLIP_matrix *c = nullptr; r = SLIP_matrix_allocate(&c, SLIP_DENSE, SLIP_MPZ, n, nb, (int64_t) n * nb, false, true, nullptr); REQ(r == SLIP_OK, "allocate"); for (int i = 0; i < n; i++) mpz_set_si(c->x.mpz[i + (int64_t) j * n], i + 1);
        r = SLIP_LU_solve(&x, c, a, f.L, f.U, f.rhos, f.S, f.pinv, &o); REQ(r == SLIP_OK && x, "[%s] the solution is right, but the checked solve returned %s", w.c_str(), info_name(r)); mfree(x);
        for (int64_t p = 0; p < a->p[n]; p++) mpz_mul_ui(a->x.mpz[p], a->x.mpz[p], 2); r = SLIP_LU_solve(&x, c, a, f.L, f.U, f.rhos, f.S, f.pinv, &o); mc::step(r); mc::outcome(7); mc::trace(); REQ(r == SLIP_INCORRECT && !x, "[%s] A was doubled and column %d of the %d right-hand sides is not zero, but the checked solve returned %s", w.c_str(), j, nb, info_name(r)); for (int64_t p = 0; p < a->p[n]; p++) mpz_divexact_ui(a->x.mpz[p], a->x.mpz[p], 2);
        f.clear(); mfree(c);
    }
    mfree(a); mfree(b); REQ(xa::live <= l0 + 64, "[%s] %lld block(s) leaked", w.c_str(), (long long) (xa::live - l0)); session_close();
}
static std::string widerhs_str(uint64_t k) { mc::Dec d(k); int n = 1 + (int) d(3), v = (int) d(3), p = (int) (k % 6); return mc::fmt("70001 right-hand sides, %d-by-%d matrix number %d, pivot scheme %d", n, n, v, p); }
static void fill_rhs(const Spec &s, bool tri, SLIP_matrix *b, std::vector<long> &bv)
{   // tri: the solution is made of small integers; otherwise it is anyway
    for (int i = 0; i < s.n; i++) bv[i] = tri ? 0 : (i * 7L + 3) % 5 - 2;
    if (tri) for (auto &e : s.e) bv[e.i] += mpz_get_si(e.v.v) * ((e.j * 7L + 3) % 5 - 2);
    for (int i = 0; i < s.n; i++) mpz_set_si(b->x.mpz[i], bv[i]);
}
// A x = scale b, entry by entry; x is SLIP_MPQ or SLIP_FP64 (the exact solution is made of small integers)
static void wide_residual(const Spec &s, const SLIP_matrix *x, const std::vector<long> &b, const char *w)
{
    int n = s.n; REQ(x && x->m == n && x->n == 1 && x->kind == SLIP_DENSE, "[%s] no solution of the right shape", w); ref::Mode m; std::vector<long> xv((size_t) n), r((size_t) n, 0);
    for (int i = 0; i < n; i++) {
        if (x->type == SLIP_MPQ) { REQ(mpz_cmp_ui(mpq_denref(x->x.mpq[i]), 1) == 0 && mpz_fits_slong_p(mpq_numref(x->x.mpq[i])), "[%s] x(%d) is not a small integer", w, i); xv[i] = mpz_get_si(mpq_numref(x->x.mpq[i])); }
        else if (x->type == SLIP_FP64) { REQ(x->x.fp64[i] == floor(x->x.fp64[i]) && fabs(x->x.fp64[i]) < 1e15, "[%s] x(%d) is not a small integer", w, i); xv[i] = (long) x->x.fp64[i]; }
        else { REQ(mpfr_integer_p(x->x.mpfr[i]) && mpfr_fits_slong_p(x->x.mpfr[i], MPFR_RNDN), "[%s] x(%d) is not a small integer", w, i); xv[i] = mpfr_get_si(x->x.mpfr[i], MPFR_RNDN); }
    }
    for (auto &e : s.e) r[e.i] += mpz_get_si(e.v.v) * xv[e.j]; for (int i = 0; i < n; i++) REQ(r[i] == b[i], "[%s] row %d of A x is %ld, the right-hand side is %ld", w, i, r[i], b[i]);
}
static void run_wide(uint64_t k, SLIP_type t, bool want_singular, bool tri = false)
{
    SLIP_options o = tri ? tri_opt(k) : wide_opt(k); Spec s = tri ? tri_spec(k) : wide_spec(k, want_singular && k % 2, o.order == SLIP_AMD); int n = s.n; if (want_singular) o.check = false; std::string w = optstr(&o); session_open(); uint64_t l0 = xa::live; SLIP_matrix *a = make_csc(s), *b = nullptr, *x = nullptr; std::vector<long> bv((size_t) n);
    SLIP_info r = SLIP_matrix_allocate(&b, SLIP_DENSE, SLIP_MPZ, n, 1, n, false, true, nullptr); REQ(r == SLIP_OK, "allocate"); fill_rhs(s, tri, b, bv);
    r = SLIP_backslash(&x, t, a, b, &o); mc::step(mc::mix((uint64_t) (int64_t) r, r == SLIP_OK ? content(x) : 0)); mc::trace();
    if (want_singular && k % 2) { mc::outcome(1); REQ(r == SLIP_SINGULAR && !x, "[%s] a column has no entry that can be a pivot, but backslash returned %s", w.c_str(), info_name(r)); }
    else { mc::outcome(0); REQ(r == SLIP_OK, "[%s] the determinant is 1 or -1, but backslash returned %s", w.c_str(), info_name(r)); REQ(x->type == t, "[%s] wrong type", w.c_str()); wide_residual(s, x, bv, w.c_str()); }
    mfree(x); mfree(a); mfree(b); REQ(xa::live <= l0 + 64, "[%s] %lld block(s) leaked", w.c_str(), (long long) (xa::live - l0)); session_close();
}
static void run_wide_analyze(uint64_t k)
{
    Spec s = wide_spec(k, false, true); int n = s.n; session_open(); SLIP_matrix *a = make_csc(s);
    for (int od = 0; od < 3; od++) { SLIP_options o = defopt(); o.order = (SLIP_col_order) od; SLIP_LU_analysis *S = analyze_ok(a, &o, n, "large dimension"); mc::trace(); mc::outcome(0); if (od == 0) for (int j = 0; j < n; j++) REQ(S->q[j] == j, "no ordering requested, but q[%d] = %lld", j, (long long) S->q[j]); sfree(S); }
    mfree(a); session_close();
}
// S03: L D^-1 U = P A Q with the right shapes determines L, U and rhos (all pivots are 1 or -1)
static void run_wide_factors(uint64_t k, bool pivots, bool tri = false)
{
    SLIP_options o = tri ? tri_opt(k) : wide_opt(k); Spec s = tri ? tri_spec(k) : wide_spec(k, false, o.order == SLIP_AMD); int n = s.n; std::string w = optstr(&o); session_open(); SLIP_matrix *a = make_csc(s); Fac f;
    SLIP_info r = SLIP_LU_analyze(&f.S, a, &o); REQ(r == SLIP_OK, "[%s] analyze returned %s", w.c_str(), info_name(r));
    r = SLIP_LU_factorize(&f.L, &f.U, &f.rhos, &f.pinv, a, f.S, &o); REQ(r == SLIP_OK, "[%s] factorize returned %s", w.c_str(), info_name(r)); mc::outcome(0);
    std::string e = valid(f.L); REQ(e.empty(), "[%s] L: %s", w.c_str(), e.c_str()); e = valid(f.U); REQ(e.empty(), "[%s] U: %s", w.c_str(), e.c_str()); e = valid(f.rhos); REQ(e.empty(), "[%s] rhos: %s", w.c_str(), e.c_str());
    std::vector<char> seen((size_t) n, 0), sq((size_t) n, 0); for (int i = 0; i < n; i++) { int64_t p = f.pinv[i], q = f.S->q[i]; REQ(p >= 0 && p < n && !seen[p], "[%s] pinv[%d] = %lld", w.c_str(), i, (long long) p); seen[p] = 1; REQ(q >= 0 && q < n && !sq[q], "[%s] q[%d] = %lld", w.c_str(), i, (long long) q); sq[q] = 1; }
    std::vector<long> rho((size_t) n + 1, 1), lx, ux, acc((size_t) n, 0); for (int i = 0; i < n; i++) { REQ(mpz_cmpabs_ui(f.rhos->x.mpz[i], 1) == 0, "[%s] pivot %d is not 1 or -1, the determinants of all leading submatrices of this matrix", w.c_str(), i); rho[i + 1] = mpz_get_si(f.rhos->x.mpz[i]); }
    auto vals = [&](SLIP_matrix *M, std::vector<long> &v, const char *nm, bool lower) {
        v.resize((size_t) M->p[n]); for (int j = 0; j < n; j++) { long d = 0; for (int64_t p = M->p[j]; p < M->p[j + 1]; p++) { REQ(lower ? M->i[p] >= j : M->i[p] <= j, "[%s] %s(%lld,%d) lies on the wrong side", w.c_str(), nm, (long long) M->i[p], j); REQ(mpz_fits_slong_p(M->x.mpz[p]), "[%s] %s(%lld,%d) is too large", w.c_str(), nm, (long long) M->i[p], j); v[p] = mpz_get_si(M->x.mpz[p]); if (M->i[p] == j) d += v[p]; } REQ(d == rho[j + 1], "[%s] %s(%d,%d) = %ld, pivot %ld", w.c_str(), nm, j, j, d, rho[j + 1]); } };
    vals(f.L, lx, "L", true); vals(f.U, ux, "U", false);
    if (pivots && !tri && o.pivot != SLIP_SMALLEST && o.pivot != SLIP_LARGEST && o.pivot != SLIP_FIRST_NONZERO) {   // every candidate is 1 or -1: the diagonal wins whenever it is one
        std::vector<int64_t> rp((size_t) n); for (int i = 0; i < n; i++) rp[f.pinv[i]] = i;
        for (int j = 0; j < n; j++) { int64_t c = f.S->q[j]; bool cand = false; for (int64_t p = f.L->p[j]; p < f.L->p[j + 1]; p++) if (lx[p] && rp[f.L->i[p]] == c) cand = true; REQ(!cand || rp[j] == c, "[%s] step %d: row %lld was taken although the diagonal entry of column %lld is a candidate of the same magnitude", w.c_str(), j, (long long) rp[j], (long long) c); }
    }
    for (int j = 0; j < n; j++) {
        std::vector<int64_t> touched; int c = (int) f.S->q[j];
        for (int64_t p = f.U->p[j]; p < f.U->p[j + 1]; p++) { int64_t t = f.U->i[p]; long m = ux[p] * rho[t] * rho[t + 1]; for (int64_t z = f.L->p[t]; z < f.L->p[t + 1]; z++) { acc[f.L->i[z]] += m * lx[z]; touched.push_back(f.L->i[z]); } }
        for (int64_t p = a->p[c]; p < a->p[c + 1]; p++) { acc[f.pinv[a->i[p]]] -= mpz_get_si(a->x.mpz[p]); touched.push_back(f.pinv[a->i[p]]); }
        for (int64_t i : touched) { REQ(acc[i] == 0, "[%s] entry (%lld,%d) of L inv(D) U - P A Q is %ld", w.c_str(), (long long) i, j, acc[i]); acc[i] = 0; }
    }
    uint64_t h = 0; for (int i = 0; i < n; i++) h = mc::mix(h, (uint64_t) f.pinv[i]); mc::step(h); mc::trace(); f.clear(); mfree(a); session_close();
}
// S21: A changed in one place after the factorization: x stays right exactly when its entry for that column is zero
static void run_wide_check(uint64_t k, bool tri)
{
    SLIP_options o = tri ? tri_opt(k) : wide_opt(k); Spec s = tri ? tri_spec(k) : wide_spec(k, false, o.order == SLIP_AMD); int n = s.n; std::string w = optstr(&o); session_open(); SLIP_matrix *a = make_csc(s), *b = nullptr, *x = nullptr; Fac f; std::vector<long> bv((size_t) n);
    SLIP_info r = SLIP_matrix_allocate(&b, SLIP_DENSE, SLIP_MPZ, n, 1, n, false, true, nullptr); REQ(r == SLIP_OK, "allocate"); fill_rhs(s, tri, b, bv);
    r = SLIP_LU_analyze(&f.S, a, &o); REQ(r == SLIP_OK, "[%s] analyze returned %s", w.c_str(), info_name(r));
    r = SLIP_LU_factorize(&f.L, &f.U, &f.rhos, &f.pinv, a, f.S, &o); REQ(r == SLIP_OK, "[%s] factorize returned %s", w.c_str(), info_name(r));
    o.check = false; r = SLIP_LU_solve(&x, b, a, f.L, f.U, f.rhos, f.S, f.pinv, &o); REQ(r == SLIP_OK, "[%s] solve returned %s", w.c_str(), info_name(r)); wide_residual(s, x, bv, w.c_str()); std::vector<char> nz((size_t) n); for (int i = 0; i < n; i++) nz[i] = mpq_sgn(x->x.mpq[i]) != 0; mfree(x); o.check = true;
    r = SLIP_LU_solve(&x, b, a, f.L, f.U, f.rhos, f.S, f.pinv, &o); mc::step(r); mc::outcome(6); mc::trace(); REQ(r == SLIP_OK, "[%s] the solution is right, but the checked solve returned %s", w.c_str(), info_name(r)); wide_residual(s, x, bv, w.c_str()); mfree(x);
    for (int64_t c : tri ? std::vector<int64_t>{0, n / 2, n - 1} : k % 2 ? std::vector<int64_t>{0, 65536, n - 1} : std::vector<int64_t>{32768, 65535, 65541}) {
        int64_t p = a->p[c + 1] - 1; Z old(a->x.mpz[p]); mpz_set(a->x.mpz[p], (old + Z(2)).v); x = nullptr; r = SLIP_LU_solve(&x, b, a, f.L, f.U, f.rhos, f.S, f.pinv, &o); mc::step(mc::mix(c, r)); mc::outcome(nz[c] ? 7 : 6); mc::trace();
        REQ(r == (nz[c] ? SLIP_INCORRECT : SLIP_OK), "[%s] entry %lld of A changed, x(%lld) is %szero, but the checked solve returned %s", w.c_str(), (long long) p, (long long) c, nz[c] ? "not " : "", info_name(r)); if (x) mfree(x); mpz_set(a->x.mpz[p], old.v);
    }
    f.clear(); mfree(a); mfree(b); session_close();
}
// ------------------------------------------------------------------ dimensions 63 to 300: sparse, strictly dominant by columns before relabelling
static const int MD[12] = {63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300};
static uint64_t mid_count(int v) { return 8ull * 12 * 6 * v; }   // v variants of pivot scheme and ordering
static Spec mid_spec(uint64_t k, int dependent)
{   // dependent: 0 nonsingular, 1 a column is the sum of two others, 2 two equal columns
    mc::Dec d(k); int t = (int) d(8), n = MD[d(12)], c = (int) d(6), rl = c % 3, cl = c < 3 ? rl : (c + 1) % 3; if (t == 4 && n > 100) n = 60 + n % 41;
    auto L = [&](int how, int i) { return how == 0 ? i : how == 1 ? n - 1 - i : (int) (i * 11003L % n); };   // 11003 is a prime larger than any n
    std::vector<std::map<int, long>> col((size_t) n); auto put = [&](int i, int j) { if (i != j && i >= 0 && i < n) col[j][i] = (i * 5L + j * 3 + k % 7) % 9 - 4; };
    for (int j = 0; j < n; j++) {
        if (t == 0) { put(j - 1, j); put(j + 1, j); }
        if (t == 1) { put(j - 2, j); put(j - 1, j); put(j + 1, j); put(j + 2, j); }
        if (t == 2) { if (j) put(0, j); else for (int i = 1; i < n; i++) put(i, 0); }
        if (t == 3) { if (j < n - 1) put(n - 1, j); else for (int i = 0; i < n - 1; i++) put(i, j); }
        if (t == 4) for (int q = 1; q <= 3; q++) put((j * (2 * q + 1) + q * 7) % n, j);
        if (t == 5) put((j + 1) % n, j);
        if (t == 6) for (int i = j / 5 * 5; i < j / 5 * 5 + 5; i++) put(i, j);
        if (t == 7) { put(2 * j + 1, j); put(2 * j + 2, j); if (j) put((j - 1) / 2, j); }
    }
    for (int j = 0; j < n; j++) { long sum = 1 + j % 3; for (auto &e : col[j]) sum += labs(e.second); col[j][j] = j % 4 ? sum : -sum; }
    if (dependent) { int z = n - 2; col[z].clear(); for (int o : dependent == 1 ? std::vector<int>{n / 2, n - 1} : std::vector<int>{n / 2}) for (auto &e : col[o]) col[z][e.first] += e.second; }
    Spec s; s.m = s.n = n; for (int j = 0; j < n; j++) for (auto &e : col[j]) s.e.push_back(Entry{L(rl, e.first), L(cl, j), Z(e.second)});
    if (k % 2) std::reverse(s.e.begin(), s.e.end()); return s;
}
static std::string mid_str(uint64_t k) { mc::Dec d(k); static const char *T[8] = {"tridiagonal", "pentadiagonal", "arrow, hub first", "arrow, hub last", "three arithmetic entries per column", "cycle", "blocks of 5", "tree"}; int t = (int) d(8), n = MD[d(12)], c = (int) d(6); return mc::fmt("%s, dimension %d%s, labelling %d, entries %s order, pivot scheme %d, ordering %d", T[t], t == 4 && n > 100 ? 60 + n % 41 : n, "", c, k % 2 ? "in reverse" : "in", (int) ((k / 3 + k / 96 + k / 576) % 6), (int) ((k / 2 + k / 192 + k / 1152) % 3)); }
static SLIP_options mid_opt(uint64_t k) { SLIP_options o = defopt(); o.pivot = (SLIP_pivot) ((k / 3 + k / 96 + k / 576) % 6); o.order = (SLIP_col_order) ((k / 2 + k / 192 + k / 1152) % 3); o.check = k & 1; return o; }
static void run_mid(uint64_t k, bool singular)
{
    SLIP_options o = mid_opt(k); std::string w = optstr(&o); int dep = singular ? (int) (k % 3) : 0; Spec s = mid_spec(k, dep); int n = s.n, nb = 1 + (int) (k % 3); if (singular) o.check = false;
    session_open(); uint64_t l0 = xa::live; SLIP_matrix *a = make_csc(s), *b = nullptr, *x = nullptr;
    SLIP_info r = SLIP_matrix_allocate(&b, SLIP_DENSE, SLIP_MPZ, n, nb, n * nb, false, true, nullptr); REQ(r == SLIP_OK, "allocate"); for (int i = 0; i < n * nb; i++) mpz_set_si(b->x.mpz[i], (i * 7L + 3) % 11 - 5);
    r = SLIP_backslash(&x, SLIP_MPQ, a, b, &o); mc::step(mc::mix((uint64_t) (int64_t) r, r == SLIP_OK ? content(x) : 0)); mc::trace();
    if (dep) { mc::outcome(1); REQ(r == SLIP_SINGULAR && !x, "[%s] the columns are dependent, but backslash returned %s", w.c_str(), info_name(r)); }
    else {
        mc::outcome(0); REQ(r == SLIP_OK, "[%s] the matrix is strictly dominant, but backslash returned %s", w.c_str(), info_name(r)); std::string e = valid(x); REQ(e.empty() && x->m == n && x->n == nb && x->type == SLIP_MPQ && x->kind == SLIP_DENSE, "[%s] no valid solution of the right form: %s", w.c_str(), e.c_str());
        for (int j = 0; j < nb; j++) { std::vector<Q> res((size_t) n, Q(0)); for (auto &e : s.e) res[e.i] = res[e.i] + Q(e.v, Z(1)) * Q(x->x.mpq[e.j + (int64_t) j * n]); for (int i = 0; i < n; i++) REQ(res[i] == Q(Z(b->x.mpz[i + (int64_t) j * n]), Z(1)), "[%s] row %d of A x does not equal the right-hand side %d", w.c_str(), i, j); }
    }
    mfree(x); mfree(a); mfree(b); REQ(xa::live <= l0 + 64, "[%s] %lld block(s) leaked", w.c_str(), (long long) (xa::live - l0)); session_close();
}
static void run_mid_factors(uint64_t k, bool pivots)
{
    SLIP_options o = mid_opt(k); std::string w = optstr(&o); Spec s = mid_spec(k, 0); int n = s.n; session_open(); SLIP_matrix *a = make_csc(s); Fac f;
    SLIP_info r = SLIP_LU_analyze(&f.S, a, &o); REQ(r == SLIP_OK, "[%s] analyze returned %s", w.c_str(), info_name(r)); r = SLIP_LU_factorize(&f.L, &f.U, &f.rhos, &f.pinv, a, f.S, &o); REQ(r == SLIP_OK, "[%s] factorize returned %s", w.c_str(), info_name(r)); mc::outcome(0);
    std::string e = valid(f.L); REQ(e.empty(), "[%s] L: %s", w.c_str(), e.c_str()); e = valid(f.U); REQ(e.empty(), "[%s] U: %s", w.c_str(), e.c_str()); e = valid(f.rhos); REQ(e.empty(), "[%s] rhos: %s", w.c_str(), e.c_str());
    std::vector<int64_t> rp((size_t) n, -1); std::vector<char> sq((size_t) n, 0); for (int i = 0; i < n; i++) { int64_t p = f.pinv[i], q = f.S->q[i]; REQ(p >= 0 && p < n && rp[p] < 0, "[%s] pinv[%d] = %lld", w.c_str(), i, (long long) p); rp[p] = i; REQ(q >= 0 && q < n && !sq[q], "[%s] q[%d] = %lld", w.c_str(), i, (long long) q); sq[q] = 1; }
    std::vector<Z> rho; rho.push_back(Z(1)); for (int i = 0; i < n; i++) { rho.push_back(Z(f.rhos->x.mpz[i])); REQ(rho.back().sgn(), "[%s] pivot %d is zero", w.c_str(), i); }
    auto shape = [&](SLIP_matrix *M, const char *nm, bool lower) { for (int j = 0; j < n; j++) { bool d = false; for (int64_t p = M->p[j]; p < M->p[j + 1]; p++) { REQ(lower ? M->i[p] >= j : M->i[p] <= j, "[%s] %s(%lld,%d) lies on the wrong side", w.c_str(), nm, (long long) M->i[p], j); if (M->i[p] == j) d = Z(M->x.mpz[p]) == rho[j + 1]; } REQ(d, "[%s] %s(%d,%d) is not pivot %d", w.c_str(), nm, j, j, j); } };
    shape(f.L, "L", true); shape(f.U, "U", false);
    for (int j = 0; j < n; j++) {   // column j of L inv(D) U = P A Q
        std::map<int64_t, Q> acc; int c = (int) f.S->q[j];
        for (int64_t p = f.U->p[j]; p < f.U->p[j + 1]; p++) { int64_t t = f.U->i[p]; Q m(Z(f.U->x.mpz[p]), rho[t] * rho[t + 1]); if (!mpz_sgn(f.U->x.mpz[p])) continue; for (int64_t z = f.L->p[t]; z < f.L->p[t + 1]; z++) { auto it = acc.find(f.L->i[z]); Q v = m * Q(Z(f.L->x.mpz[z]), Z(1)); if (it == acc.end()) acc.emplace(f.L->i[z], v); else it->second = it->second + v; } }
        for (int64_t p = a->p[c]; p < a->p[c + 1]; p++) { int64_t i = f.pinv[a->i[p]]; auto it = acc.find(i); Q v = Q(-Z(a->x.mpz[p]), Z(1)); if (it == acc.end()) acc.emplace(i, v); else it->second = it->second + v; }
        for (auto &z : acc) REQ(z.second == Q(0), "[%s] entry (%lld,%d) of L inv(D) U - P A Q is not zero", w.c_str(), (long long) z.first, j);
        if (pivots) {   // column j of L holds the candidates of step j
            int64_t p0 = f.L->p[j], p1 = f.L->p[j + 1], dg = -1; Z lo(0), hi(0), dv(0), got(rho[j + 1]); if (got.sgn() < 0) got = -got;
            for (int64_t p = p0; p < p1; p++) { Z v(f.L->x.mpz[p]); if (v.sgn() < 0) v = -v; if (!v.sgn()) continue; if (!lo.sgn() || v < lo) lo = v; if (hi < v) hi = v; if (rp[f.L->i[p]] == c) { dg = p; dv = v; } }
            bool diag = rp[j] == c, ok = true; Q tol(o.tol); bool meets = dg >= 0 && (o.pivot == SLIP_TOL_LARGEST ? tol <= Q(dv, hi) : tol <= Q(lo, dv));
            switch (o.pivot) { case SLIP_SMALLEST: ok = got == lo; break; case SLIP_LARGEST: ok = got == hi; break; case SLIP_FIRST_NONZERO: break; case SLIP_DIAGONAL: ok = dg >= 0 ? diag : got == lo; break; case SLIP_TOL_SMALLEST: ok = meets ? diag : (got == lo && (!diag || lo == dv)); break; default: ok = meets ? diag : (got == hi && (!diag || hi == dv)); }
            REQ(ok, "[%s] step %d: the pivot does not obey the scheme", w.c_str(), j);
        }
    }
    mc::step(f.hash(n)); mc::trace(); f.clear(); mfree(a); session_close();
}
// S06 in dimensions 63 to 100
static uint64_t mid_fp_index(uint64_t k) { mc::Dec d(k); uint64_t t = d(8), n = d(4), c = d(6); return t + 8 * (n + 12 * c); }
static void run_mid_fp(uint64_t k0)
{
    uint64_t k = mid_fp_index(k0); Spec s = mid_spec(k, 0); int n = s.n, nb = 2; Mat A = s.dense(), B = ref::zeros(n, nb), X; for (int i = 0; i < n; i++) for (int j = 0; j < nb; j++) B[i][j] = Z((i * 7L + j * 5 + 3) % 11 - 5); Z det = ref::det_solve(A, B, X); REQ(det.sgn(), "reference: dominant matrix with determinant zero"); mc::outcome(0);
    session_open(); SLIP_matrix *a = make_csc(s), *b = make_dense(B, n, nb), *x = nullptr; Q sa = SC[k % 6], sb = SC[k / 6 % 6]; set_scale(a, sa); set_scale(b, sb); Q factor = sa / sb; SLIP_options o = mid_opt(k);
    static const int PR[3] = {24, 53, 200};
    for (int pi = 0; pi < 3; pi++) { o.prec = PR[pi]; o.round = RND[(k + pi) % 5]; SLIP_info st = SLIP_backslash(&x, SLIP_MPFR, a, b, &o); REQ(st == SLIP_OK, "[%s] backslash returned %s", optstr(&o).c_str(), info_name(st)); std::string e = check_fp(x, X, det, factor, n, nb, SLIP_MPFR, PR[pi], o.round); step_x(x); mc::trace(); REQ(e.empty(), "[MPFR, %s] %s", optstr(&o).c_str(), e.c_str()); mfree(x); }
    SLIP_info st = SLIP_backslash(&x, SLIP_FP64, a, b, &o); REQ(st == SLIP_OK, "[%s] backslash returned %s", optstr(&o).c_str(), info_name(st)); std::string e = check_fp(x, X, det, factor, n, nb, SLIP_FP64, 53, MPFR_RNDN); step_x(x); mc::trace(); REQ(e.empty(), "[FP64, %s] %s", optstr(&o).c_str(), e.c_str()); mfree(x);
    mfree(a); mfree(b); session_close();
}
void mc::register_spaces(const std::string &P, bool th)
{
    mc::outcome_name(0, "nonsingular"); mc::outcome_name(1, "singular"); mc::outcome_name(2, "allocation failed"); mc::outcome_name(3, "refused");
    mc::outcome_name(4, "printed"); mc::outcome_name(5, "silent"); mc::outcome_name(6, "solution true"); mc::outcome_name(7, "solution false");
    auto F = std::make_shared<std::vector<Fam>>(families(th));
    auto addfams = [&](std::function<void(const Fam &, uint64_t)> run, std::function<bool(Fam &)> keep) {
        for (auto &f0 : *F) { Fam f = f0; if (!keep(f)) continue; mc::add(f.name, f.n, [f, run](uint64_t i) { run(f, i); }, [f](uint64_t i) { return f.get(i).str(); }); }
    };
    auto named = [](const Fam &f, std::vector<std::string> v) { for (auto &x : v) if (f.name.find(x) != std::string::npos) return true; return false; };
    Fam pat3; pat3.name = "3x3-patterns"; pat3.n = 512; pat3.level = 0; pat3.get = [](uint64_t k) { Spec s = pattern(3, k); for (auto &e : s.e) e.v = generic(e.i, e.j, 3); return s; };
    auto addpat3 = [&](std::function<void(const Fam &, uint64_t)> run) { Fam f = pat3; mc::add(f.name, f.n, [f, run](uint64_t i) { run(f, i); }, [f](uint64_t i) { return f.get(i).str(); }); };
    if (P == "S01") {
        mc::add("beyond-16-bits", 36, [](uint64_t k) { run_wide(k, SLIP_MPQ, false); }, wide_spec_str);
        mc::add("more-than-65536-factor-entries", TRI, [](uint64_t k) { run_wide(k, SLIP_MPQ, false, true); }, tri_str);
        mc::add("more-than-65536-right-hand-sides", widerhs_count(), [](uint64_t k) { run_wide_rhs(k, SLIP_MPQ, false); }, widerhs_str);
        mc::add("dimensions-63-to-300", mid_count(th ? 18 : 6), [](uint64_t k) { run_mid(k, false); }, mid_str);
        mc::assume("the input matrix is built with GMP directly; the reference solution is fraction-free Gauss-Jordan elimination with GMP");
        addfams([](const Fam &f, uint64_t i) { run_solve(f, i, false); }, [&](Fam &f) { if (f.n > 20000000) f.level = 3; if (!th && f.name == "4x4-bits") f.level = 2; return f.level < 3; });
        mc::add("0x0", 4 * 6 * 3 * 2, run_empty, [](uint64_t i) { mc::Dec d(i); int nb = (int) d(4), p = (int) d(6), od = (int) d(3), ck = (int) d(2); return mc::fmt("0x0 matrix, %d right-hand sides, pivot scheme %d, ordering %d, check %d", nb, p, od, ck); });
        {
            static const int NB[] = {7, 16, 17, 33, 64, 100, 257}, ND[] = {1, 2, 3, 5, 12, 20};
            mc::add("many right-hand sides", 7 * 6 * 8 * 6, [](uint64_t i) { mc::Dec d(i); int nb = NB[d(7)], n = ND[d(6)], sd = (int) d(8), k = (int) d(6); run_rhs(n, nb, sd, k, (k * 2 + sd) % 6); }, [](uint64_t i) { mc::Dec d(i); int nb = NB[d(7)], n = ND[d(6)], sd = (int) d(8), k = (int) d(6); return mc::fmt("dimension %d, %d right-hand sides, values %d, scale(A)=%s, scale(b)=%s", n, nb, sd, SC[k].str().c_str(), SC[(k * 2 + sd) % 6].str().c_str()); });
        }
        mc::add("right-hand sides and scales", 4 * 6 * 16 * 36, [](uint64_t i) { mc::Dec d(i); int n = 1 + (int) d(4), nb = (int) d(6), sd = (int) d(16), x = (int) d(6), y = (int) d(6); run_rhs(n, nb, sd, x, y); }, [](uint64_t i) { mc::Dec d(i); int n = 1 + (int) d(4), nb = (int) d(6), sd = (int) d(16), x = (int) d(6), y = (int) d(6); return mc::fmt("dimension %d, %d right-hand sides, values %d, scale(A)=%s, scale(b)=%s", n, nb, sd, SC[x].str().c_str(), SC[y].str().c_str()); });
    } else if (P == "S02") {
        mc::add("beyond-16-bits", 36, [](uint64_t k) { run_wide(k, SLIP_MPQ, true); }, wide_spec_str);
        mc::add("dimensions-63-to-300", mid_count(th ? 18 : 6), [](uint64_t k) { run_mid(k, true); }, mid_str);
        addfams([](const Fam &f, uint64_t i) { run_solve(f, i, true); }, [&](Fam &f) { if (f.level == 3) f.level = 2; return th || true; });
    } else if (P == "S03" || P == "S04") {
        bool pv = P == "S04";
        mc::add("beyond-16-bits", 36, [pv](uint64_t k) { run_wide_factors(k, pv); }, wide_spec_str);
        mc::add("more-than-65536-factor-entries", TRI, [pv](uint64_t k) { run_wide_factors(k, pv, true); }, tri_str);
        mc::add("dimensions-63-to-300", mid_count(th ? 18 : pv ? 3 : 2), [pv](uint64_t k) { run_mid_factors(k, pv); }, mid_str);
        addfams([pv](const Fam &f, uint64_t i) { run_factors(f, i, pv); }, [&](Fam &f) { return f.level < 3 && !(f.n > 5000000 && false); });
        int e3 = th ? 7 : 4;
        auto d2 = [](int n, int e) { return [n, e](uint64_t i) { mc::Dec d(i); uint64_t p = d(1ull << (n * n)); int l = n + (int) d(e), u = n + (int) d(e); int pv = (int) d(6); return mc::fmt("pattern %llx of %dx%d, every column order, lnz=%d unz=%d pivot scheme %d", (unsigned long long) p, n, n, l, u, pv); }; };
        mc::add("user-analysis-2x2", 16 * 9 * 6, [pv](uint64_t i) { run_user_S(2, i, pv, 3); }, d2(2, 3));
        mc::add("user-analysis-3x3", 512ull * e3 * e3 * 6, [pv, e3](uint64_t i) { run_user_S(3, i, pv, e3); }, d2(3, e3));
        if (th) mc::add("user-analysis-4x4", 65536ull * 1 * 6, [pv](uint64_t i) { run_user_S(4, i, pv, 1); }, d2(4, 1));
        mc::add("user-analysis-large", 14 * 6 * 25 * 3, [pv](uint64_t i) { mc::Dec d(i); uint64_t a = d(14), b = d(6); run_user_S_big(a + 14 * (b + 9 * (i / 84)), pv, true); }, [](uint64_t i) { mc::Dec d(i); int sh = (int) d(14), n = (int) d(6), a = (int) d(5), b = (int) d(5), q = (int) d(3); static const int D[] = {20, 24, 31, 32, 33, 40}; return mc::fmt("structure %d dimension %d estimates %d %d column order %d", sh, D[n], a, b, q); });
        mc::add("user-analysis-structured", 14 * 10 * 25 * 3, [pv](uint64_t i) { run_user_S_big(i, pv); }, [](uint64_t i) { mc::Dec d(i); int sh = (int) d(14), n = 6 + (int) d(10), a = (int) d(5), b = (int) d(5), q = (int) d(3); return mc::fmt("structure %d dimension %d estimates %d %d column order %d", sh, n, a, b, q); });
    } else if (P == "S05") {
        mc::add("beyond-16-bits", 36, run_wide_analyze, wide_spec_str);
        auto dp = [](int n) { return [n](uint64_t i) { return pattern(n, i).str(); }; };
        for (int n = 0; n <= 4; n++) mc::add(mc::fmt("patterns-%d", n), 1ull << (n * n), [n](uint64_t i) { analyze_case(pattern(n, i)); }, dp(n));
        if (th) mc::add("patterns-5", 1ull << 25, [](uint64_t i) { Spec s = pattern(5, i); session_open(); SLIP_matrix *a = make_csc(s); for (int od = 1; od < 3; od++) { SLIP_options o = defopt(); o.order = (SLIP_col_order) od; SLIP_LU_analysis *S = analyze_ok(a, &o, 5, ""); sfree(S); } mc::trace(); mfree(a); session_close(); }, dp(5));
        mc::add("larger", 8 * 4 * 3 * 3 * 5 * 2, [](uint64_t i) { analyze_case(big_pattern(i)); }, [](uint64_t i) { return big_pattern(i).str(); });
        for (int n = 1; n <= 3; n++) mc::add(mc::fmt("failed-allocation-%d", n), 1ull << (n * n), [n](uint64_t i) { analyze_oom(pattern(n, i)); }, dp(n));
        mc::add("failed-allocation-larger", 8 * 4 * 3 * 3 * 5, [](uint64_t i) { analyze_oom(big_pattern(i)); }, [](uint64_t i) { return big_pattern(i).str(); });
        mc::add("invalid-pattern", 2 * 4 * 5 * 16 * 8, analyze_bad, [](uint64_t i) { mc::Dec d(i); int od = 1 + (int) d(2), n = 1 + (int) d(4), k = (int) d(5), pos = (int) d(16); uint64_t pt = d(8); return mc::fmt("ordering %d, %dx%d pattern %llu, defect %d at %d", od, n, n, (unsigned long long) pt, k, pos); });
        for (auto &f : *F) if (f.name == "structured" || f.name == "irregular" || f.name == "large-structured" || f.name == "path-6-plus-2" || f.name == "5x5-diagonal-plus-4") { Fam g = f; mc::add(g.name, g.n, [g](uint64_t i) { analyze_case(g.get(i)); }, [g](uint64_t i) { return g.get(i).str(); }); }
    } else if (P == "S06") {
        mc::add("dimensions-63-to-100", 8 * 4 * 6, run_mid_fp, [](uint64_t k) { return mid_str(mid_fp_index(k)); });
        mc::add("beyond-16-bits", 36, [](uint64_t k) { run_wide(k, k % 2 ? SLIP_FP64 : SLIP_MPFR, false); }, wide_spec_str);
        mc::add("more-than-65536-right-hand-sides", widerhs_count(), [](uint64_t k) { run_wide_rhs(k, k % 2 ? SLIP_FP64 : SLIP_MPFR, false); }, widerhs_str);
        mc::assume("solutions in double precision: the exact value lies within the range of finite doubles (beyond it the neighbours of the result are not finite and are not compared)");
        std::vector<int> pr = th ? std::vector<int>{2, 3, 24, 53, 64, 113, 128, 200, 333} : std::vector<int>{2, 24, 53, 64, 130};
        addfams([pr](const Fam &f, uint64_t i) { run_fp(f, i, pr); }, [&](Fam &f) { if (!th && f.name == "large-structured") { f.name = "large-structured, dimension at most 24"; f.n = 2 * 14 * 4; } if (!th && f.name == "huge-magnitudes") { f.name = "huge-magnitudes, dimension at most 3"; f.n = 128; auto g = f.get; f.get = [g](uint64_t i) { return g(i % 2 + 6 * (i / 2)); }; } return f.n <= (th ? 70000u : 5000u) || f.name == "3x3-signs"; });
        mc::add("values", (th ? 400 : 120) * 2 * 6 * 8, [th](uint64_t i) { run_fp_value(i, th); }, [](uint64_t i) { return mc::fmt("1x1 value %llu", (unsigned long long) i); });
    } else if (P == "S20") {
        addfams([](const Fam &f, uint64_t i) { run_options(f, i); }, [&](Fam &f) { if (!th && f.name == "large-structured") { f.name = "large-structured, dimension 20"; f.n = 14 * 4; } return named(f, {"1x1", "structured", "near-singular", "low-rank"}) || (th && f.n < 25000); });
        addpat3(run_options);
        mc::add("larger", 8 * 4 * 3, [](uint64_t i) { Fam f; f.get = [](uint64_t k) { Spec s = big_pattern(k); for (auto &e : s.e) e.v = generic(e.i, e.j, s.n); return s; }; run_options(f, i); }, [](uint64_t i) { return big_pattern(i).str(); });
    } else if (P == "S21") {
        mc::add("beyond-16-bits", 36, [](uint64_t k) { run_wide_check(k, false); }, wide_spec_str);
        mc::add("more-than-65536-factor-entries", TRI, [](uint64_t k) { run_wide_check(k, true); }, tri_str);
        mc::add("more-than-65536-right-hand-sides", widerhs_count(), [](uint64_t k) { run_wide_rhs(k, SLIP_MPQ, true); }, widerhs_str);
        addfams([](const Fam &f, uint64_t i) { run_check(f, i); }, [&](Fam &f) { if (!th && f.name == "structured") { f.name = "structured, dimension at most 9"; f.n = f.n * 5 / 12; } if (f.name == "large-structured") { f.name = "large-structured, dimension 20"; f.n = 1 * 14 * 4; } return named(f, {"1x1", "2x2-mag", "structured", "near-singular"}) || (th && f.n < 25000); });
        addpat3(run_check);
        addfams([](const Fam &f, uint64_t i) { run_check_one(f, i); }, [&](Fam &f) { if (f.name != "2x2-magnitudes" && (f.name != "3x3-presentations" || th) && (f.name != "3x3-halves" || !th)) return false; f.name += ", one entry"; return true; });
    }
}
