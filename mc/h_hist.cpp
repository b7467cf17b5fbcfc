// h_hist.cpp: S12: histories of calls over several live matrices and factorizations in one session
#include "lu.h"
using ref::Z; using ref::Q; using ref::Mat;
struct Sys { SLIP_matrix *A = nullptr, *b = nullptr, *view = nullptr; lu::Fac F; bool fac = false; int n = 0; };
static const int NS = 4; static Sys W[NS]; static SLIP_options OPT;
static SLIP_matrix *MF = nullptr, *DB = nullptr, *TR = nullptr;     // more sources for copies
static Spec sysm(int k)
{
    Spec s; auto fill = [&](int n, std::vector<long> a) { s.m = s.n = n; for (int j = 0; j < n; j++) for (int i = n - 1; i >= 0; i--) if (a[i * n + j]) s.e.push_back({i, j, Z(a[i * n + j])}); };
    switch (k) {
        case 0: fill(2, {0, 3, -2, 5}); break;
        case 1: fill(4, {0, 7, 0, -3, 4, 0, 5, 0, 0, 6, 1, 0, 2, 0, 0, 9}); for (auto &e : s.e) if (e.i == e.j + 1) e.v = e.v * Z::pow(10, 30); break;
        case 2: fill(3, {1, 2, 3, 2, 4, 6, 5, 0, 1}); break;     // singular
        default: fill(4, {3, 1, 0, 2, 1, -4, 2, 0, 0, 2, 5, 1, 2, 0, 1, -6}); break;
    }
    return s;
}
static uint64_t all_inputs()
{
    uint64_t h = 1; for (auto &w : W) { h = mc::mix(h, mc::mix(snapshot(w.A), snapshot(w.b))); h = mc::mix(h, snapshot(w.view)); if (w.fac) { h = mc::mix(h, mc::mix(snapshot(w.F.L), snapshot(w.F.U))); h = mc::mix(h, mc::mix(snapshot(w.F.rhos), snapshot(w.F.S, w.n))); h = mc::hbytes(h, w.F.pinv, w.n * 8); } }
    h = mc::mix(h, mc::mix(snapshot(MF), mc::mix(snapshot(DB), snapshot(TR)))); return mc::hbytes(h, &OPT, sizeof OPT);
}
static uint64_t all_content() { uint64_t h = 1; for (auto &w : W) h = mc::mix(h, mc::mix(content(w.A), content(w.b))); return mc::mix(h, mc::mix(content(MF), mc::mix(content(DB), content(TR)))); }
static uint64_t done(SLIP_info st, SLIP_matrix *&x) { uint64_t h = mc::mix(st + 100, x ? content(x) : 7); REQ((st == SLIP_OK) == (x != nullptr), "status %s %s a result", info_name(st), x ? "with" : "without"); if (x) { std::string v = valid(x); REQ(v.empty(), "the result is not a valid matrix: %s", v.c_str()); mfree(x); } return h; }
static void refactor(int k, lu::Cfg c, uint64_t &h)
{
    Sys &w = W[k]; if (w.fac) { w.F.clear(); w.fac = false; } SLIP_options o = lu::opt(c); SLIP_options o0 = o;
    SLIP_info st = SLIP_LU_analyze(&w.F.S, w.A, &o); REQ(st == SLIP_OK, "analysis returned %s", info_name(st)); h = snapshot(w.F.S, w.n);
    st = SLIP_LU_factorize(&w.F.L, &w.F.U, &w.F.rhos, &w.F.pinv, w.A, w.F.S, &o); REQ(!memcmp(&o, &o0, sizeof o), "the options were changed"); h = mc::mix(h, st + 100);
    if (st == SLIP_OK) { h = mc::mix(h, w.F.hash(w.n)); w.fac = true; } else { REQ(!w.F.L && !w.F.U && !w.F.rhos && !w.F.pinv, "status %s with a factor", info_name(st)); w.F.clear(); }
}
struct Op { std::string name; std::function<uint64_t()> run; bool mut = false; };     // mut: it replaces an object of the session
static std::vector<Op> OPS; static std::vector<uint64_t> FRESH;
static int LIVE[NS], PREV;      // the factorization each system has, the previous call
static void setup()
{
    memset(LIVE, 0, sizeof LIVE); PREV = 0;
    session_open(); session_warm(); OPT = defopt(); for (int k = 0; k < NS; k++) { Spec s = sysm(k); Sys &w = W[k]; w.n = s.n; w.A = make_csc(s); Mat B = ref::zeros(s.n, k == 1 ? 3 : 1); for (int i = 0; i < s.n; i++) for (size_t j = 0; j < B[i].size(); j++) B[i][j] = Z((i * 7 + (int) j * 3) % 5 - 2) * (j == 1 ? Z::pow(10, 25) : Z(1)); w.b = make_dense(B, s.n, (int) B[0].size());
        if (k == 3) { set_scale(w.A, Q(Z(3), Z(4))); set_scale(w.b, Q(Z(-5), Z(2))); }
        SLIP_info st = SLIP_matrix_allocate(&w.view, SLIP_CSC, SLIP_MPZ, s.n, s.n, w.A->nzmax, true, true, nullptr); REQ(st == SLIP_OK, "%s", info_name(st)); w.view->p = w.A->p; w.view->i = w.A->i; w.view->x = w.A->x; }
    SLIP_options o = defopt(); SLIP_info st = SLIP_matrix_copy(&MF, SLIP_DENSE, SLIP_MPFR, W[3].A, &o); REQ(st == SLIP_OK, "%s", info_name(st)); st = SLIP_matrix_copy(&DB, SLIP_CSC, SLIP_FP64, W[3].A, &o); REQ(st == SLIP_OK, "%s", info_name(st)); st = SLIP_matrix_copy(&TR, SLIP_TRIPLET, SLIP_MPQ, W[1].A, &o); REQ(st == SLIP_OK, "%s", info_name(st));
    uint64_t h; for (int k : {0, 1, 3}) { W[k].fac = false; refactor(k, {3, 1, 1.0}, h); }
}
static void teardown() { for (auto &w : W) { mfree(w.view); mfree(w.A); mfree(w.b); w.F.clear(); w.fac = false; } mfree(MF); mfree(DB); mfree(TR); session_close(); }
static void ops(bool th)
{
    static const char *PN[6] = {"smallest", "diagonal", "nonzero", "tol smallest", "tol largest", "largest"}, *ON[3] = {"none", "COLAMD", "AMD"};
    auto fac = [&](int k, int p, int ord, double tol) { OPS.push_back({mc::fmt("factorize system %d (%s, ordering %s, tol %g)", k, PN[p], ON[ord], tol), [=]() { uint64_t h = 0; refactor(k, {p, ord, tol}, h); return h; }, true}); };
    auto solve = [&](int k, bool check) { OPS.push_back({mc::fmt("solve system %d%s", k, check ? " with check" : ""), [=]() { Sys &w = W[k]; SLIP_matrix *x = nullptr; OPT.check = check; SLIP_options o0 = OPT; SLIP_info st = SLIP_LU_solve(&x, w.b, w.A, w.F.L, w.F.U, w.F.rhos, w.F.S, w.F.pinv, &OPT); REQ(!memcmp(&OPT, &o0, sizeof o0), "the options were changed"); OPT.check = false; return done(st, x); }}); };
    auto back = [&](int k, int t, int p) { OPS.push_back({mc::fmt("backslash system %d to type %d (%s)", k, t, PN[p]), [=]() { SLIP_matrix *x = nullptr; SLIP_options o = lu::opt({p, 2, 1.0}); o.prec = 70; o.round = MPFR_RNDU; SLIP_options o0 = o; SLIP_info st = SLIP_backslash(&x, (SLIP_type) t, W[k].A, W[k].b, &o); REQ(!memcmp(&o, &o0, sizeof o), "the options were changed"); return done(st, x); }}); };
    auto copy = [&](const char *nm, SLIP_matrix *const *src, int k, int t) { OPS.push_back({mc::fmt("copy %s to kind %d, type %d", nm, k, t), [=]() { SLIP_matrix *x = nullptr; SLIP_info st = SLIP_matrix_copy(&x, (SLIP_kind) k, (SLIP_type) t, *src, &OPT); return done(st, x); }}); };
    auto check = [&](const char *nm, SLIP_matrix *const *src, int pr) { OPS.push_back({mc::fmt("check %s, print level %d", nm, pr), [=]() { SLIP_options o = OPT; o.print_level = pr; xp::reset(); SLIP_info st = SLIP_matrix_check(*src, &o); return mc::mix(st + 9, xp::hash); }}); };
    fac(1, 3, 0, 1.0); fac(1, 4, 2, 0.5); fac(3, 5, 1, 1.0); fac(0, 2, 0, 1.0); solve(0, false); solve(1, false); solve(1, true); solve(3, true); back(2, SLIP_MPQ, 0); back(3, SLIP_MPFR, 1);
    copy("A1", &W[1].A, SLIP_DENSE, SLIP_MPQ); copy("the view of A3", &W[3].view, SLIP_TRIPLET, SLIP_FP64); copy("an mpfr matrix", &MF, SLIP_CSC, SLIP_MPZ); check("A1", &W[1].A, 1); check("an mpfr matrix", &MF, 3);
    OPS.push_back({"solve system 1 with a right-hand side of the wrong size", []() { Sys &w = W[1]; SLIP_matrix *x = nullptr; SLIP_info st = SLIP_LU_solve(&x, W[0].b, w.A, w.F.L, w.F.U, w.F.rhos, w.F.S, w.F.pinv, &OPT); return done(st, x); }});
    OPS.push_back({"solve system 1, out of memory at the 9th request", []() { Sys &w = W[1]; SLIP_matrix *x = nullptr; xa::arm(9); SLIP_info st = SLIP_LU_solve(&x, w.b, w.A, w.F.L, w.F.U, w.F.rhos, w.F.S, w.F.pinv, &OPT); xa::disarm(); done(st, x); return (uint64_t) 1; }});
    OPS.push_back({"factorize system 3, out of memory from the 40th request on", []() { Sys &w = W[3]; lu::Fac F; xa::arm_from(40); SLIP_info st = SLIP_LU_factorize(&F.L, &F.U, &F.rhos, &F.pinv, w.A, w.F.S, &OPT); xa::disarm(); REQ(!F.L && !F.U && !F.rhos && !F.pinv, "factors with status %s", info_name(st)); return (uint64_t) 1; }});
    OPS.push_back({"factorize the singular system 2", []() { uint64_t h = 0; refactor(2, {5, 1, 1.0}, h); return h; }});
    if (th) { fac(1, 1, 1, 1.0); fac(3, 0, 2, 1.0); fac(3, 4, 0, 0.1); solve(3, false); back(0, SLIP_FP64, 5); back(1, SLIP_MPQ, 3); copy("a double matrix", &DB, SLIP_DENSE, SLIP_MPZ); copy("a triplet matrix", &TR, SLIP_CSC, SLIP_MPQ); copy("a triplet matrix", &TR, SLIP_DENSE, SLIP_MPFR); check("a triplet matrix", &TR, 2); check("A3", &W[3].A, 0);
        OPS.push_back({"copy of A1, out of memory at the 5th request", []() { SLIP_matrix *x = nullptr; xa::arm(5); SLIP_info st = SLIP_matrix_copy(&x, SLIP_TRIPLET, SLIP_MPQ, W[1].A, &OPT); xa::disarm(); done(st, x); return (uint64_t) 1; }});
        OPS.push_back({"backslash system 1, out of memory from the 60th request on", []() { SLIP_matrix *x = nullptr; xa::arm_from(60); SLIP_info st = SLIP_backslash(&x, SLIP_FP64, W[1].A, W[1].b, &OPT); xa::disarm(); done(st, x); return (uint64_t) 1; }}); }
}
static void fresh()
{
    if (FRESH.size()) return;
    for (auto &o : OPS) { setup(); FRESH.push_back(o.run()); teardown(); }
}
// an operation of a history: apart from objects it replaces, nothing may change
static void apply(int a)
{
    Op &o = OPS[a]; uint64_t c = all_content(), before = o.mut || o.name.find("singular") != std::string::npos ? 0 : all_inputs(); uint64_t h = o.run();
    if (before) REQ(all_inputs() == before, "%s: an input was changed", o.name.c_str()); REQ(all_content() == c, "%s: a matrix was changed", o.name.c_str());
    REQ(h == FRESH[a], "%s: outcome differs from the one in a fresh session", o.name.c_str());
    if (o.mut) for (int k = 0; k < NS; k++) if (o.name.find(mc::fmt("system %d", k)) != std::string::npos) LIVE[k] = a + 1;
    mc::step(mc::mix(mc::mix(a, h), mc::hbytes(PREV, LIVE, sizeof LIVE))); PREV = a + 1;
}
void mc::register_spaces(const std::string &, bool th)
{
    mc::outcome_name(0, "histories"); ops(th); int n = (int) OPS.size(), dmax = 4;
    for (int d = 1; d <= dmax; d++) {
        // one execution: all histories that share all but the last two operations (replayed from a fresh session each)
        auto str = [=](uint64_t i) { mc::Dec D(i); std::string r; for (int k = 0; k < d; k++) r += (k ? "; " : "") + OPS[D(n)].name; return r; };
        mc::add(mc::fmt("depth-%d", d), mc::ipow(n, d), [=](uint64_t i) { fresh(); mc::Dec D(i); setup(); for (int k = 0; k < d; k++) apply(D(n)); teardown(); mc::trace(); mc::outcome(0); }, str);
    }
    // longer histories over the calls that keep state between them: factorizations, solves, failures
    static std::vector<int> few; for (int a = 0; a < n; a++) { auto &s = OPS[a].name; if (s == "factorize system 1 (tol largest, ordering AMD, tol 0.5)" || s.find("solve system 1") == 0 || s.find("factorize system 3 (") == 0 || s.find("backslash system 2") == 0 || s.find("copy A1 ") == 0) few.push_back(a); }
    int f = (int) few.size(), d = th ? 6 : 5;
    mc::add(mc::fmt("few-depth-%d", d), mc::ipow(f, d), [=](uint64_t i) { fresh(); mc::Dec D(i); setup(); for (int k = 0; k < d; k++) apply(few[D(f)]); teardown(); mc::trace(); mc::outcome(0); }, [=](uint64_t i) { mc::Dec D(i); std::string r; for (int k = 0; k < d; k++) r += (k ? "; " : "") + OPS[few[D(f)]].name; return r; });
}
