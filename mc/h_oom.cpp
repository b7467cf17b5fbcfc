// h_oom.cpp: S13 (failing allocations are survived), S14 (and reported, all or nothing)
#include "lu.h"
using ref::Z; using ref::Q;
static std::string PROP; static bool SMALL;
struct Env {
    SLIP_options o; SLIP_options *op = nullptr; SLIP_matrix *A = nullptr, *b = nullptr, *view = nullptr; SLIP_LU_analysis *S = nullptr; lu::Fac F;     // inputs
    SLIP_matrix *out = nullptr; SLIP_LU_analysis *oS = nullptr; lu::Fac oF; SLIP_options *oO = nullptr; void *blk = nullptr; bool factors = false, header = false; int64_t n = 0;     // results
};
struct Sc { std::string name; std::function<void(Env &)> prep; std::function<SLIP_info(Env &)> run; };
static std::vector<Sc> SC;
static Spec sys(int k)
{
    auto mk = [](int n, std::vector<std::vector<long>> a) { Spec s; s.m = s.n = n; for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) if (a[i][j]) s.e.push_back({i, j, Z(a[i][j])}); return s; };
    switch (k) {
        case 0: { Spec s; return s; }
        case 1: return mk(1, {{-7}});
        case 2: return mk(3, {{2, 0, 1}, {0, 0, 3}, {4, 5, 0}});
        case 3: { Spec s = mk(3, {{2, 3, 1}, {7, 1, 3}, {4, 5, 9}}); for (auto &e : s.e) e.v = e.v * Z::pow(10, 45) + Z(e.i + 2 * e.j); return s; }
        case 4: return mk(3, {{1, 2, 3}, {2, 4, 6}, {1, 0, 1}});      // singular
        case 5: { Spec s = mk(5, {{4, -1, 0, 0, -1}, {-1, 4, -1, 0, 0}, {0, -1, 4, -1, 0}, {0, 0, -1, 4, -1}, {-1, 0, 0, -1, 4}}); for (auto &e : s.e) if (e.i == e.j) e.v = Z::pow(2, 70) + Z(e.i); return s; }
        case 6: return mk(2, {{0, 3}, {5, 0}});
        case 7: { Spec s; s.m = s.n = 4; for (int j = 0; j < 4; j++) for (int i = 0; i < 4; i++) s.e.push_back({i, j, lu::generic(i, j, 4, 3)}); return s; }
        default: { Spec s; s.m = s.n = 7; for (int j = 0; j < 7; j++) for (int i = 0; i < 7; i++) if (i == j || i == 0 || j == 0 || (i * 3 + j) % 5 == 0) s.e.push_back({i, j, lu::generic(i, j, 7, 1) * Z::pow(2, 40 * (i % 2))}); return s; }
    }
}
static SLIP_matrix *rhs_for(const Spec &s, int cols)
{
    ref::Mat B = ref::zeros(s.n, cols); for (int i = 0; i < s.n; i++) for (int j = 0; j < cols; j++) B[i][j] = j == 1 ? Z(0) : Z((i + 2) * (j ? -3 : 5)) * (j == 2 ? Z::pow(10, 30) : Z(1));
    return make_dense(B, s.n, cols);
}
static const char *KN[3] = {"CSC", "triplet", "dense"}, *TN[5] = {"MPZ", "MPQ", "MPFR", "INT64", "FP64"};
static SLIP_matrix *source(int kind, int type, int m, int n, SLIP_options *o)
{
    static const double v[] = {0.5, -3, 0, 7.25, 1e3, -0.125}; int64_t nz = kind == SLIP_DENSE ? m * n : m * n ? m * n - 1 : 0;
    SLIP_matrix *A = nullptr; SLIP_info st = SLIP_matrix_allocate(&A, (SLIP_kind) kind, (SLIP_type) type, m, n, nz, false, true, o); REQ(st == SLIP_OK, "allocate");
    int64_t k = 0;
    for (int j = 0; j < n; j++) { if (kind == SLIP_CSC) A->p[j] = k; for (int i = 0; i < m && k < nz; i++) { if (kind != SLIP_DENSE) A->i[k] = i; if (kind == SLIP_TRIPLET) A->j[k] = j;
        double x = v[(k * 5 + 1) % 6];
        switch (type) { case SLIP_MPZ: mpz_set_si(A->x.mpz[k], (long) (x * 8)); if (k == 1) mpz_mul_2exp(A->x.mpz[k], A->x.mpz[k], 300); break; case SLIP_MPQ: mpq_set_si(A->x.mpq[k], (long) (x * 8), 7 + k); mpq_canonicalize(A->x.mpq[k]); break; case SLIP_MPFR: mpfr_set_d(A->x.mpfr[k], x, MPFR_RNDN); break; case SLIP_INT64: A->x.int64[k] = (int64_t) (x * 8); break; case SLIP_FP64: A->x.fp64[k] = x; break; }
        k++; } }
    if (kind == SLIP_CSC) A->p[n] = k;
    if (kind == SLIP_TRIPLET) A->nz = k;
    if (type == SLIP_MPZ) set_scale(A, Q(Z::pow(2, 200) + Z(1), Z::pow(7, 80)));
    return A;
}
static void scenarios(bool th)
{
    SC.push_back({"SLIP_create_default_options", [](Env &) {}, [](Env &e) { e.oO = SLIP_create_default_options(); return e.oO ? SLIP_OK : SLIP_OUT_OF_MEMORY; }});
    SC.push_back({"SLIP_malloc", [](Env &) {}, [](Env &e) { e.blk = SLIP_malloc(24); return e.blk ? SLIP_OK : SLIP_OUT_OF_MEMORY; }});
    SC.push_back({"SLIP_calloc", [](Env &) {}, [](Env &e) { e.blk = SLIP_calloc(3, 8); return e.blk ? SLIP_OK : SLIP_OUT_OF_MEMORY; }});
    for (int k = 0; k < 3; k++) for (int t = 0; t < 5; t++) for (int sh = 0; sh < 2; sh++) for (int in = 0; in < 2; in++)
        SC.push_back({mc::fmt("SLIP_matrix_allocate %s %s shallow=%d init=%d", KN[k], TN[t], sh, in), [=](Env &e) { e.op = &e.o; e.header = sh || !in; }, [=](Env &e) { return SLIP_matrix_allocate(&e.out, (SLIP_kind) k, (SLIP_type) t, 2, 2, k == 2 ? 4 : 3, sh, in, e.op); }});
    for (int k = 0; k < 3; k++) for (int t = 0; t < 5; t++) for (int dk = 0; dk < 3; dk++) for (int dt = 0; dt < 5; dt++)
        SC.push_back({mc::fmt("SLIP_matrix_copy %s %s to %s %s", KN[k], TN[t], KN[dk], TN[dt]), [=](Env &e) { e.op = &e.o; e.A = source(k, t, 2, 2, e.op); }, [=](Env &e) { return SLIP_matrix_copy(&e.out, (SLIP_kind) dk, (SLIP_type) dt, e.A, e.op); }});
    for (int k = 0; k < 3; k++) for (int t = 0; t < 5; t++) for (int pr = 0; pr < 4; pr += th ? 1 : 3)
        SC.push_back({mc::fmt("SLIP_matrix_check %s %s print level %d", KN[k], TN[t], pr), [=](Env &e) { e.op = &e.o; e.o.print_level = pr; e.A = source(k, t, 2, 2, e.op); }, [=](Env &e) { return SLIP_matrix_check(e.A, e.op); }});
    auto anprep = [](int s, lu::Cfg c, int pr) { return [=](Env &e) { e.o = lu::opt(c); e.o.print_level = pr; e.op = &e.o; e.A = make_csc(sys(s)); e.n = e.A->n; }; };
    for (int s : {0, 1, 2, 5, 8}) for (int ord = 0; ord < 3; ord++) for (int pr = 0; pr < 2; pr++)
        SC.push_back({mc::fmt("SLIP_LU_analyze system %d order %d print level %d", s, ord, pr), anprep(s, {3, ord, 1.0}, pr), [](Env &e) { return SLIP_LU_analyze(&e.oS, e.A, e.op); }});
    SC.push_back({"SLIP_LU_analyze system 5 default options", [=](Env &e) { e.A = make_csc(sys(5)); e.n = 5; }, [](Env &e) { return SLIP_LU_analyze(&e.oS, e.A, nullptr); }});
    // factorization: capacity 0: from the analysis; 1: too small, so that the factors must grow
    auto fac = [](Env &e) { e.factors = true; return SLIP_LU_factorize(&e.oF.L, &e.oF.U, &e.oF.rhos, &e.oF.pinv, e.A, e.S, e.op); };
    std::vector<int> pivots = {0, 1, 2, 3, 4, 5};
    for (int s = 0; s < 9; s++) for (int piv : pivots) for (int cap = 0; cap < 2; cap++) {
        if (cap && s < 2) continue;
        if (!th && (s == 8 || s == 4) && piv != 3 && piv != 1) continue;
        SC.push_back({mc::fmt("SLIP_LU_factorize system %d pivot rule %d capacity %s", s, piv, cap ? "small" : "estimated"), [=](Env &e) {
            e.o = lu::opt({piv, s % 3, piv == 4 || piv == 3 ? 0.5 : 1.0}); e.op = &e.o; Spec sp = sys(s); e.A = make_csc(sp); e.n = sp.n;
            if (cap) { std::vector<int64_t> q; for (int k = 0; k < sp.n; k++) q.push_back(k); e.S = lu::make_S(q, sp.n, sp.n); } else { SLIP_info st = SLIP_LU_analyze(&e.S, e.A, e.op); REQ(st == SLIP_OK, "analysis"); } }, fac});
    }
    // solve
    for (int s : {0, 1, 2, 3, 5, 6, 7, 8}) for (int chk = 0; chk < 2; chk++) for (int sc = 0; sc < 2; sc++) {
        if (!th && s == 8 && sc) continue;
        SC.push_back({mc::fmt("SLIP_LU_solve system %d check %d %s", s, chk, sc ? "scaled" : "unscaled"), [=](Env &e) {
            e.o = lu::opt({3, s % 3, 1.0}); e.o.check = chk; e.op = &e.o; Spec sp = sys(s); e.A = make_csc(sp); e.n = sp.n; e.b = rhs_for(sp, s == 8 ? 1 : 3); if (sc) { set_scale(e.A, Q(Z(10), Z(3))); set_scale(e.b, Q(Z(1), Z(7))); }
            SLIP_info st = SLIP_LU_analyze(&e.S, e.A, e.op); REQ(st == SLIP_OK, "analysis"); st = SLIP_LU_factorize(&e.F.L, &e.F.U, &e.F.rhos, &e.F.pinv, e.A, e.S, e.op); REQ(st == SLIP_OK, "factorization"); },
            [](Env &e) { return SLIP_LU_solve(&e.out, e.b, e.A, e.F.L, e.F.U, e.F.rhos, e.S, e.F.pinv, e.op); }});
    }
    // backslash
    static const int ty[3] = {SLIP_MPQ, SLIP_MPFR, SLIP_FP64};
    for (int s : {1, 2, 3, 4, 5, 7}) for (int t = 0; t < 3; t++) for (int ord = 0; ord < 3; ord++) {
        if (!th && (s + t + ord) % 3) continue;
        SC.push_back({mc::fmt("SLIP_backslash system %d to %s order %d", s, TN[ty[t]], ord), [=](Env &e) {
            e.o = lu::opt({(s + ord) % 6, ord, 1.0}); e.o.check = t == 0; e.op = &e.o; Spec sp = sys(s); e.A = make_csc(sp); e.n = sp.n; e.b = rhs_for(sp, 2); set_scale(e.A, Q(Z(2), Z(3))); },
            [=](Env &e) { return SLIP_backslash(&e.out, (SLIP_type) ty[t], e.A, e.b, e.op); }});
    }
    SC.push_back({"SLIP_backslash system 3 to FP64 default options", [=](Env &e) { Spec sp = sys(3); e.A = make_csc(sp); e.n = 3; e.b = rhs_for(sp, 1); }, [](Env &e) { return SLIP_backslash(&e.out, SLIP_FP64, e.A, e.b, nullptr); }});
}
static uint64_t inputs(const Env &e)
{
    uint64_t h = mc::mix(snapshot(e.A), snapshot(e.b)); h = mc::mix(h, snapshot(e.S, e.n)); if (e.F.L) { h = mc::mix(h, snapshot(e.F.L)); h = mc::mix(h, snapshot(e.F.U)); h = mc::mix(h, snapshot(e.F.rhos)); h = mc::hbytes(h, e.F.pinv, e.n * 8); }
    if (e.op) { h = mc::mix(h, e.o.pivot * 100 + e.o.order * 10 + e.o.print_level); h = mc::mix(h, e.o.prec + e.o.check); }
    return h;
}
static uint64_t input_content(const Env &e) { return mc::mix(content(e.A), content(e.b)); }
static bool any(const Env &e) { return e.out || e.oS || e.oF.L || e.oF.U || e.oF.rhos || e.oF.pinv || e.oO || e.blk; }
static uint64_t results(const Env &e)
{
    uint64_t h = mc::mix(!e.out ? 1 : !e.header ? content(e.out) : mc::mix(mc::mix(e.out->m, e.out->n), mc::mix(e.out->nzmax, e.out->kind * 10 + e.out->type)), snapshot(e.oS, e.n)); if (e.factors) h = mc::mix(h, e.oF.L && e.oF.U && e.oF.rhos && e.oF.pinv ? e.oF.hash(e.n) : (e.oF.L || e.oF.U || e.oF.rhos || e.oF.pinv) ? 66 : 55);
    if (e.oO) h = mc::mix(h, mc::mix(e.oO->pivot * 100 + e.oO->order * 10 + e.oO->check, mc::mix(e.oO->prec, e.oO->round)) + (uint64_t) (e.oO->tol * 1000));
    return mc::mix(h, xp::hash);
}
static void clear_results(Env &e)
{
    if (e.out) mfree(e.out); e.oF.clear(); if (e.oS) { SLIP_info st = SLIP_LU_analysis_free(&e.oS, nullptr); REQ(st == SLIP_OK, "free"); }
    if (e.oO) { SLIP_free(e.oO); e.oO = nullptr; } if (e.blk) { SLIP_free(e.blk); e.blk = nullptr; }
}
static void clear_inputs(Env &e) { mfree(e.A); mfree(e.b); lu::Fac &F = e.F; F.clear(); if (e.S) { SLIP_info st = SLIP_LU_analysis_free(&e.S, nullptr); REQ(st == SLIP_OK, "free"); } }
static void start(Env &e, const Sc &s, bool warm) { session_open(); if (warm) session_warm(); e.o = defopt(); s.prep(e); xp::reset(); }
#define CTX "[%s] "
// one run of scenario s; k1, k2: failing requests, from: all requests from this one; returns how many were refused
static uint64_t once(const Sc &s, bool warm, uint64_t k1, uint64_t k2, uint64_t from, SLIP_info normal, uint64_t want)
{
    Env e; start(e, s, warm); uint64_t before = inputs(e), cont = input_content(e);
    std::string w = from ? mc::fmt("requests %llu and later fail", (unsigned long long) from) : k2 ? mc::fmt("requests %llu and %llu fail", (unsigned long long) k1, (unsigned long long) k2) : mc::fmt("request %llu fails", (unsigned long long) k1);
    if (from) xa::arm_from(from); else xa::arm(k1, k2);
    SLIP_info st = s.run(e); uint64_t hit = xa::failed; xa::disarm();
    mc::step(mc::mix(mc::mix(mc::hbytes(warm, s.name.data(), s.name.size()), st), mc::mix(mc::mix(k1, k2), mc::mix(from, hit)))); mc::trace(); mc::outcome(!hit ? 0 : st == normal ? 1 : 2);
    if (PROP == "S13") {
        REQ(inputs(e) == before && input_content(e) == cont, CTX "an input was changed (status %s)", w.c_str(), info_name(st));
    } else {
        if (!hit) REQ(st == normal && results(e) == want, CTX "nothing failed but the outcome differs from the normal one (%s, normally %s)", w.c_str(), info_name(st), info_name(normal));
        else if (st == SLIP_OUT_OF_MEMORY) REQ(!any(e), CTX "out of memory was reported but a result object was delivered", w.c_str());
        else { REQ(st == normal, CTX "status %s (normally %s)", w.c_str(), info_name(st), info_name(normal)); REQ(results(e) == want, CTX "status %s, but the result is incomplete or wrong", w.c_str(), info_name(st)); }
    }
    clear_results(e);
    if (PROP == "S13") {    // the library stays usable: repeat
        e.factors = false; xp::reset(); st = s.run(e); REQ(st == normal && results(e) == want, CTX "repeating the call with memory available gives %s, not the normal outcome (%s)", w.c_str(), info_name(st), info_name(normal));
        REQ(inputs(e) == before, CTX "an input was changed by the repeated call", w.c_str()); clear_results(e);
    }
    clear_inputs(e);
    SLIP_info r = SLIP_finalize(); REQ(r == SLIP_OK, "closing the session returned %s", info_name(r));
    if (PROP == "S13") REQ(xa::live == 0, CTX "%llu block(s) leaked: %s", w.c_str(), (unsigned long long) xa::live, xa::live_str().c_str());
    return hit;
}
static void normal_run(const Sc &s, bool warm, SLIP_info &st, uint64_t &res)
{
    Env e; start(e, s, warm); st = s.run(e); res = results(e); clear_results(e); clear_inputs(e);
    if (PROP == "S13") session_close(); else SLIP_finalize();
}
static const int R = 16;
static std::string describe(uint64_t i, const char *what) { return SC[i / 2 / R].name + (i & 1 ? ", bignum list present" : ", first use of the bignum list") + mc::fmt(", %s %d, %d, ...", what, (int) (i / 2 % R) + 1, (int) (i / 2 % R) + 1 + R); }
void mc::register_spaces(const std::string &prop, bool th)
{
    PROP = prop; const char *v = getenv("MC_VARIANT"); SMALL = v && *v; std::string pfx = SMALL ? "list1:" : "";
    mc::outcome_name(0, "no allocation failed"); mc::outcome_name(1, "failure tolerated, normal outcome"); mc::outcome_name(2, "failure reported");
    scenarios(th && !SMALL); uint64_t n = SC.size() * 2 * R;
    mc::add(pfx + "single", n, [](uint64_t i) {
        const Sc &s = SC[i / 2 / R]; SLIP_info st; uint64_t res; normal_run(s, i & 1, st, res);
        for (uint64_t k = i / 2 % R + 1; once(s, i & 1, k, 0, 0, st, res); k += R) { } }, [](uint64_t i) { return describe(i, "failing request"); });
    mc::add(pfx + "persistent", n, [](uint64_t i) {
        const Sc &s = SC[i / 2 / R]; SLIP_info st; uint64_t res; normal_run(s, i & 1, st, res);
        for (uint64_t k = i / 2 % R + 1; once(s, i & 1, 0, 0, k, st, res); k += R) { } }, [](uint64_t i) { return describe(i, "all requests fail from"); });
    if (!SMALL || th) mc::add(pfx + "pairs", n, [](uint64_t i) {
        const Sc &s = SC[i / 2 / R]; SLIP_info st; uint64_t res; normal_run(s, i & 1, st, res);
        for (uint64_t k = i / 2 % R + 1; ; k += R) { uint64_t h = 0; for (uint64_t l = k + 1; (h = once(s, i & 1, k, l, 0, st, res)) == 2; l++) { } if (!h) break; } }, [](uint64_t i) { return describe(i, "first failing request"); });
    mc::assume("every block goes through the configured allocator functions; a refused request returns null");
}
