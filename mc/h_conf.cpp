// h_conf: G02 (the shared configuration: memory manager, printing, timer, version, default parameters)
#include "slipx.h"
#include <algorithm>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
extern "C" {
#include "amd.h"
#include "colamd.h"
}
// ---------------------------------------------------------------- the clock, owned by the driver
namespace clk { static bool on; static struct timespec now; static int calls; static clockid_t id; }
extern "C" int clock_gettime(clockid_t c, struct timespec *t) { if (clk::on) { clk::calls++; clk::id = c; *t = clk::now; return 0; } return (int) syscall(SYS_clock_gettime, c, t); }
// ---------------------------------------------------------------- three memory managers that know their own blocks
namespace mm {
struct Head { uint64_t magic, size; };
static uint64_t calls[4], live[4];
static void *get(int k, size_t n, bool zero) { calls[k]++; if (n > (1u << 20)) return nullptr; Head *h = (Head *) malloc(sizeof(Head) + n); h->magic = 0xB10C0000 + k; h->size = n; memset(h + 1, zero ? 0 : 0xCD, n); live[k]++; return h + 1; }
static void put(int k, void *p) { calls[k]++; Head *h = (Head *) p - 1; REQ(h->magic == 0xB10C0000ull + k, "a block was freed through another memory manager than it came from"); h->magic = 0xDEAD; live[k]--; free(h); }
static void *re(int k, void *p, size_t n) { calls[k]++; Head *h = (Head *) p - 1; REQ(h->magic == 0xB10C0000ull + k, "a block was reallocated through another memory manager than it came from"); void *q = get(k, n, false); if (!q) return q; memcpy(q, p, std::min<size_t>(n, h->size)); put(k, p); return q; }
template <int K> void *m(size_t n) { return get(K, n, false); }
template <int K> void *c(size_t a, size_t b) { return get(K, a * b, true); }
template <int K> void *r(void *p, size_t n) { return re(K, p, n); }
template <int K> void f(void *p) { if (p) put(K, p); }
}
namespace pp { static uint64_t calls[3]; template <int K> int print(const char *, ...) { calls[K]++; return 1; } }

// ---------------------------------------------------------------- the model of the configuration
struct Model { int mgr, prt; bool open; };     // manager 0: the C library's; print 0: printf, 1 2: ours, 3: none
static SuiteSparse_config_struct want(const Model &m)
{
    SuiteSparse_config_struct c; memset(&c, 0, sizeof c);
    switch (m.mgr) { case 0: c.malloc_func = malloc; c.calloc_func = calloc; c.realloc_func = realloc; c.free_func = free; break; case 1: c.malloc_func = mm::m<1>; c.calloc_func = mm::c<1>; c.realloc_func = mm::r<1>; c.free_func = mm::f<1>; break; default: c.malloc_func = mm::m<2>; c.calloc_func = mm::c<2>; c.realloc_func = mm::r<2>; c.free_func = mm::f<2>; }
    c.printf_func = m.prt == 0 ? printf : m.prt == 1 ? pp::print<1> : m.prt == 2 ? pp::print<2> : nullptr; c.hypot_func = SuiteSparse_hypot; c.divcomplex_func = SuiteSparse_divcomplex; return c;
}
static void as_configured(const Model &m, const char *after)
{
    SuiteSparse_config_struct w = want(m), &c = SuiteSparse_config;
    REQ(c.malloc_func == w.malloc_func && c.calloc_func == w.calloc_func && c.realloc_func == w.realloc_func && c.free_func == w.free_func, "after %s the memory manager is not the one that was set", after);
    REQ(c.printf_func == w.printf_func, "after %s the print function is not the one that was set", after);
    REQ(c.hypot_func == w.hypot_func && c.divcomplex_func == w.divcomplex_func, "after %s the numeric helpers are not those of the library", after);
}
static const char *ON[] = {"SuiteSparse_start", "SuiteSparse_finish", "install manager 1", "install manager 2", "install print function 1", "install print function 2", "disable printing", "amd_order", "amd_l_order of a jumbled matrix", "symamd with its own manager", "colamd", "amd_control and amd_info", "colamd_report and symamd_l_report",
    "SuiteSparse malloc, calloc, realloc, free", "SLIP_initialize", "SLIP_initialize_expert with manager 2", "SLIP_finalize", "solve and print a system"};
static const int NO = 18;
static const char *EMPTYS = "";
static void solve2(Model &m)
{
    SLIP_options *o = SLIP_create_default_options(); if (!m.open) { REQ(!o, "options were created outside a session"); SLIP_matrix *A = (SLIP_matrix *) 8; SLIP_info st = SLIP_matrix_allocate(&A, SLIP_DENSE, SLIP_INT64, 1, 1, 1, false, true, nullptr); REQ(st == SLIP_PANIC, "%s outside a session", info_name(st)); return; }
    REQ(o, "no options"); SLIP_matrix *D = nullptr, *A = nullptr, *b = nullptr, *x = nullptr; SLIP_info st = SLIP_matrix_allocate(&D, SLIP_DENSE, SLIP_INT64, 2, 2, 4, false, true, o); REQ(st == SLIP_OK, "%s", info_name(st));
    D->x.int64[0] = 3; D->x.int64[1] = 5; D->x.int64[2] = 1; D->x.int64[3] = -7; st = SLIP_matrix_copy(&A, SLIP_CSC, SLIP_MPZ, D, o); REQ(st == SLIP_OK, "%s", info_name(st));
    SLIP_matrix *bd = nullptr; st = SLIP_matrix_allocate(&bd, SLIP_DENSE, SLIP_FP64, 2, 1, 2, false, true, o); REQ(st == SLIP_OK, "%s", info_name(st)); bd->x.fp64[0] = 0.5; bd->x.fp64[1] = 3; st = SLIP_matrix_copy(&b, SLIP_DENSE, SLIP_MPZ, bd, o); REQ(st == SLIP_OK, "%s", info_name(st));
    if (m.prt) { o->print_level = 3; uint64_t c[3] = {0, pp::calls[1], pp::calls[2]}; st = SLIP_matrix_check(A, o); REQ(st == SLIP_OK, "%s", info_name(st)); for (int k = 1; k <= 2; k++) REQ((pp::calls[k] > c[k]) == (m.prt == k), "print function %d was %scalled", k, pp::calls[k] > c[k] ? "" : "not "); }
    o->print_level = 0; st = SLIP_backslash(&x, SLIP_FP64, A, b, o); REQ(st == SLIP_OK, "%s", info_name(st));
    // 3 x + y = 1/2, 5 x - 7 y = 3
    REQ(fabs(x->x.fp64[0] - 6.5 / 26) < 1e-12 && fabs(x->x.fp64[1] + 6.5 / 26) < 1e-12, "wrong solution %g %g", x->x.fp64[0], x->x.fp64[1]);
    SLIP_matrix_free(&D, o); SLIP_matrix_free(&A, o); SLIP_matrix_free(&b, o); SLIP_matrix_free(&bd, o); SLIP_matrix_free(&x, o); SLIP_FREE(o);
}
static void wrappers()
{
    char *p = (char *) SuiteSparse_malloc(5, 3), *q = (char *) SuiteSparse_calloc(4, 8); REQ(p && q, "no block"); memset(p, 7, 15); for (int k = 0; k < 32; k++) REQ(q[k] == 0, "the block is not cleared"); int ok = 9; p = (char *) SuiteSparse_realloc(50, 5, 3, p, &ok); REQ(ok == 1 && p, "no larger block"); for (int k = 0; k < 15; k++) REQ(p[k] == 7, "the contents were lost");
    REQ(!SuiteSparse_free(p) && !SuiteSparse_free(q), "a pointer was returned"); (void) EMPTYS;
}
static void apply(Model &m, int op)
{
    uint64_t c[4], l[4], q[3] = {0, pp::calls[1], pp::calls[2]}; for (int k = 0; k < 4; k++) { c[k] = mm::calls[k]; l[k] = mm::live[k]; }
    bool uses = false, prints = false, fixed = m.open && (op == 0 || op == 2 || op == 3);
    if (fixed) return;      // the manager is not exchanged while a session holds blocks
    switch (op) {
        case 0: SuiteSparse_start(); m.mgr = 0; m.prt = 0; break;
        case 1: SuiteSparse_finish(); break;
        case 2: case 3: { m.mgr = op - 1; auto w = want(m); SuiteSparse_config.malloc_func = w.malloc_func; SuiteSparse_config.calloc_func = w.calloc_func; SuiteSparse_config.realloc_func = w.realloc_func; SuiteSparse_config.free_func = w.free_func; break; }
        case 4: case 5: case 6: m.prt = op - 3; SuiteSparse_config.printf_func = want(m).printf_func; break;
        case 7: { int p[] = {0, 2, 3, 5}, i[] = {0, 2, 1, 0, 2}, P[3]; int r = amd_order(3, p, i, P, nullptr, nullptr); REQ(r == AMD_OK, "amd_order returned %d", r); REQ((1 << P[0] | 1 << P[1] | 1 << P[2]) == 7, "no permutation"); uses = true; break; }
        case 8: { SuiteSparse_long p[] = {0, 2, 3, 5}, i[] = {2, 0, 1, 0, 0}, P[3]; long r = amd_l_order(3, p, i, P, nullptr, nullptr); REQ(r == AMD_OK_BUT_JUMBLED, "amd_l_order returned %ld", r); REQ((1 << P[0] | 1 << P[1] | 1 << P[2]) == 7, "no permutation"); uses = true; break; }
        case 9: { int p[] = {0, 1, 2, 4}, i[] = {1, 2, 0, 2}, P[4], st[COLAMD_STATS]; int r = symamd(3, i, p, P, nullptr, st, mm::c<3>, mm::f<3>); REQ(r == 1 && st[COLAMD_STATUS] >= 0, "symamd returned %d", r); REQ(mm::calls[3] > c[3], "symamd did not use the functions it was given"); c[3] = mm::calls[3]; break; }
        case 10: { int p[] = {0, 2, 3}, A[400] = {0, 2, 1}, st[COLAMD_STATS]; int r = colamd(3, 2, 400, A, p, nullptr, st); REQ(r == 1 && st[COLAMD_STATUS] >= 0, "colamd returned %d", r); break; }
        case 11: if (m.prt) { double C[AMD_CONTROL], I[AMD_INFO]; amd_defaults(C); for (double &x : I) x = 0; amd_control(C); uint64_t mid = pp::calls[1] + pp::calls[2]; amd_info(I); prints = true; if (m.prt < 3) REQ(mid > q[1] + q[2] && pp::calls[1] + pp::calls[2] > mid, "a report was not printed"); } break;
        case 12: if (m.prt) { int s[COLAMD_STATS] = {0}; SuiteSparse_long t[COLAMD_STATS] = {0}; colamd_report(s); uint64_t mid = pp::calls[1] + pp::calls[2]; symamd_l_report(t); prints = true; if (m.prt < 3) REQ(mid > q[1] + q[2] && pp::calls[1] + pp::calls[2] > mid, "a report was not printed"); } break;
        case 13: wrappers(); uses = true; break;
        case 14: { SLIP_info st = SLIP_initialize(); REQ(st == (m.open ? SLIP_PANIC : SLIP_OK), "%s", info_name(st)); m.open = true; break; }
        case 15: { SLIP_info st = SLIP_initialize_expert(mm::m<2>, mm::c<2>, mm::r<2>, mm::f<2>); REQ(st == (m.open ? SLIP_PANIC : SLIP_OK), "%s", info_name(st)); if (!m.open) m.mgr = 2; m.open = true; break; }
        case 16: { SLIP_info st = SLIP_finalize(); REQ(st == (m.open ? SLIP_OK : SLIP_PANIC), "%s", info_name(st)); m.open = false; for (int k = 0; k < 4; k++) REQ(mm::live[k] == 0, "%llu block(s) of manager %d are live after the session", (unsigned long long) mm::live[k], k); break; }
        case 17: prints = m.open && m.prt; solve2(m); uses = m.open; break;
    }
    as_configured(m, ON[op]);
    for (int k = 1; k <= 3; k++) {
        if (uses && k == m.mgr) REQ(mm::calls[k] > c[k], "%s did not use the memory manager that is installed", ON[op]);
        if (k != m.mgr && !(op == 16)) REQ(mm::calls[k] == c[k], "%s used memory manager %d, which is not installed", ON[op], k);
        if (!m.open) REQ(mm::live[k] == 0, "%s left blocks of manager %d", ON[op], k);
    }
    for (int k = 1; k <= 2; k++) if (!prints || k != m.prt) REQ(pp::calls[k] == q[k], "%s printed through print function %d", ON[op], k);
    mc::step(mc::mix(mc::mix(op, m.mgr * 8 + m.prt * 2 + m.open), mc::mix(uses * 2 + prints, l[1] + l[2])));
}
static void reset(Model &m)
{
    static SuiteSparse_config_struct first; static bool have; if (!have) { first = SuiteSparse_config; have = true; }
    SuiteSparse_config = first; m = {0, 0, false}; memset(mm::calls, 0, sizeof mm::calls); memset(mm::live, 0, sizeof mm::live); memset(pp::calls, 0, sizeof pp::calls); mp_set_memory_functions(nullptr, nullptr, nullptr);
}
static std::string hist(uint64_t i, int d, const std::vector<int> &ops) { mc::Dec D(i); std::string s; for (int k = 0; k < d; k++) s += (k ? "; " : "") + std::string(ON[ops[D(ops.size())]]); return s; }
static void run_hist(uint64_t i, int d, const std::vector<int> &ops)
{
    mc::Dec D(i); Model m; reset(m); as_configured(m, "program start"); for (int k = 0; k < d; k++) apply(m, ops[D(ops.size())]);
    if (m.open) { apply(m, 17); apply(m, 16); }
    mc::outcome(0); mc::trace();
}
// ---------------------------------------------------------------- timer
static const long SE[] = {0, 1, 59, 1000, 1700000000, 2147483647, 2147483648L, 4294967301L, 1L << 40}, DS[] = {0, 1, 2, 59, 86400, 1000000, 9000000}, NS[] = {0, 1, 2, 499999999, 500000000, 999999998, 999999999, 123456789};
static void timer(uint64_t i)
{
    mc::Dec D(i); long s0 = SE[D(9)], d = DS[D(7)], n0 = NS[D(8)], n1 = NS[D(8)], n2 = NS[D(8)]; if (d == 0 && n1 < n0) std::swap(n0, n1); if (n2 < n1) n2 = n1; double tic[4] = {-3, -4, 77, 78}, keep[2];
    clk::on = true; clk::calls = 0; clk::now = {s0, n0}; SuiteSparse_tic(tic); bool used = clk::calls > 0; clockid_t id = clk::id; memcpy(keep, tic, sizeof keep);
    clk::now = {s0 + d, n1}; double t = SuiteSparse_toc(tic); double w = SuiteSparse_time(); bool kept = !memcmp(keep, tic, sizeof keep); clk::now = {s0 + d, n2}; double u = SuiteSparse_toc(tic); clk::on = false;
    REQ(tic[2] == 77 && tic[3] == 78, "written beyond the two elements"); REQ(kept, "the start time was changed"); mc::step(mc::mix(mc::hbytes(i, &t, 8), mc::hbytes(0, &w, 8)));
    if (used) {     // the clock that is read must not be one that can be set back
        REQ(id == CLOCK_MONOTONIC || id == CLOCK_MONOTONIC_RAW || id == CLOCK_BOOTTIME || id == CLOCK_MONOTONIC_COARSE, "the clock can be set back (clock %d)", (int) id);
        REQ(tic[0] == (double) s0 && tic[1] == (double) n0, "tic gave %.17g s %.17g ns", tic[0], tic[1]);
        long ns = d * 1000000000L + (n1 - n0), ns2 = d * 1000000000L + (n2 - n0); long double e = fabsl((long double) t - ns * 1e-9L), e2 = fabsl((long double) u - ns2 * 1e-9L); REQ(e <= 1e-9L, "toc gave %.17g s, %ld ns have passed", t, ns); REQ(e2 <= 1e-9L, "a second toc gave %.17g s, %ld ns have passed", u, ns2);
        long double x = (long double) (s0 + d) + n1 * 1e-9L; REQ(fabsl(w - x) <= 1e-9L + x * 0x1p-52L, "time gave %.17g, it is %.17Lg", w, x); mc::outcome(1);
    } else { REQ(t >= 0 && u >= t && w >= 0, "times go backwards"); mc::outcome(2); }
    mc::trace();
}
// ---------------------------------------------------------------- defaults and version
static const double FI[] = {0, -1, 1e300, 0.0 / 0.0, 77};
static void defaults(uint64_t i)
{
    mc::Dec D(i); int fn = D(4); bool null = D(2); double f = FI[D(5)]; double a[COLAMD_KNOBS + 2 > AMD_CONTROL + 2 ? COLAMD_KNOBS + 2 : AMD_CONTROL + 2]; int n = fn < 2 ? AMD_CONTROL : COLAMD_KNOBS; for (double &x : a) x = f; a[n] = 41; a[n + 1] = 42; double *p = null ? nullptr : a;
    switch (fn) { case 0: amd_defaults(p); break; case 1: amd_l_defaults(p); break; case 2: colamd_set_defaults(p); break; default: colamd_l_set_defaults(p); }
    REQ(a[n] == 41 && a[n + 1] == 42, "written beyond the array"); if (null) { mc::outcome(3); mc::step(fn); mc::trace(); return; }
    // documented: AMD 10 and on, the rest 0; COLAMD 10, 10 and on, the rest 0
    for (int k = 0; k < n; k++) { double w = 0; if (fn < 2) { if (k == AMD_DENSE) w = 10; if (k == AMD_AGGRESSIVE) w = 1; } else { if (k == COLAMD_DENSE_ROW || k == COLAMD_DENSE_COL) w = 10; if (k == COLAMD_AGGRESSIVE) w = 1; } REQ(a[k] == w, "element %d is %g, should be %g", k, a[k], w); }
    mc::step(mc::hbytes(fn, a, n * sizeof(double))); mc::outcome(3); mc::trace();
}
static void version(uint64_t i)
{
    int v[5] = {-9, -8, -7, 41, 42}; int r = SuiteSparse_version(i ? v : nullptr); mc::step(mc::mix(r, i)); REQ(r == SUITESPARSE_VERSION, "the version is %d", r);
    if (i) { REQ(v[0] == SUITESPARSE_MAIN_VERSION && v[1] == SUITESPARSE_SUB_VERSION && v[2] == SUITESPARSE_SUBSUB_VERSION && v[3] == 41 && v[4] == 42, "the version is %d.%d.%d", v[0], v[1], v[2]); REQ(r == v[0] * 1000 + v[1], "the code of the version"); }
    mc::outcome(3); mc::trace();
}
void mc::register_spaces(const std::string &, bool th)
{
    mc::outcome_name(0, "history of the configuration"); mc::outcome_name(1, "time measured"); mc::outcome_name(2, "no timer"); mc::outcome_name(3, "defaults and version");
    static std::vector<int> all, few = {0, 3, 6, 7, 13, 14, 15, 16, 17, 4}; for (int k = 0; k < NO; k++) all.push_back(k);
    for (int d = 1; d <= (th ? 5 : 4); d++) mc::add(mc::fmt("histories-%d", d), mc::ipow(NO, d), [d](uint64_t i) { run_hist(i, d, all); }, [d](uint64_t i) { return hist(i, d, all); });
    int d = th ? 6 : 5; mc::add(mc::fmt("few-histories-%d", d), mc::ipow(few.size(), d), [d](uint64_t i) { run_hist(i, d, few); }, [d](uint64_t i) { return hist(i, d, few); });
    mc::add("timer", 9 * 7 * 8 * 8 * 8, timer, [](uint64_t i) { mc::Dec D(i); long s0 = SE[D(9)], dd = DS[D(7)], n0 = NS[D(8)], n1 = NS[D(8)], n2 = NS[D(8)]; return mc::fmt("tic at %ld s %ld ns, toc and time %ld s later at %ld ns, toc again at %ld ns", s0, n0, dd, n1, n2); });
    mc::add("defaults", 4 * 2 * 5, defaults, [](uint64_t i) { mc::Dec D(i); static const char *N[] = {"amd_defaults", "amd_l_defaults", "colamd_set_defaults", "colamd_l_set_defaults"}; int f = (int) D(4); return mc::fmt("%s, %s", N[f], D(2) ? "null" : "an array"); });
    mc::add("version", 2, version, [](uint64_t i) { return std::string(i ? "SuiteSparse_version" : "SuiteSparse_version of a null pointer"); });
    mc::assume("the memory manager is exchanged only while no session is open; SLIP_initialize keeps the manager that is installed; through the C library's own printf nothing is printed (only the function pointer is compared)");
}
