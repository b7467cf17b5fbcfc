// h_cfg: G01 (numeric helpers), R01 (reports of the ordering codes), R02 (printing a matrix)
#include "slipx.h"
#include <algorithm>
#include <cctype>
#include <cfloat>
#include <climits>
extern "C" {
#include "amd.h"
#include "colamd.h"
}
// ================================================================ G01
// ---- exact arithmetic in MPFR with enough bits for any sum and product of a few doubles
struct F { mpfr_t f; F(double x = 0) { mpfr_init2(f, 9000); mpfr_set_d(f, x, MPFR_RNDN); } F(const F &o) : F() { mpfr_set(f, o.f, MPFR_RNDN); } ~F() { mpfr_clear(f); } F &operator=(const F &o) { mpfr_set(f, o.f, MPFR_RNDN); return *this; } };
static F operator*(const F &a, const F &b) { F r; mpfr_mul(r.f, a.f, b.f, MPFR_RNDN); return r; }
static F operator+(const F &a, const F &b) { F r; mpfr_add(r.f, a.f, b.f, MPFR_RNDN); return r; }
static F operator-(const F &a, const F &b) { F r; mpfr_sub(r.f, a.f, b.f, MPFR_RNDN); return r; }
static bool same(double a, double b) { return (a != a && b != b) || (a == b && signbit(a) == signbit(b)); }
static std::vector<double> HV, DV;
static void g01(bool th)
{
    // mantissas x exponents for the hypotenuse
    std::vector<double> man = {1, 1 + ldexp(1, -52), 1.5, 1.25, 1.75, 2 - ldexp(1, -52)}; if (th) for (double d : {1.1, 1.3333333333333333, 1.4142135623730951, 1.4142135623730949, 1.6180339887498949, 1.9999, 1 + ldexp(1, -26), 1 + ldexp(1, -27), 2 - ldexp(1, -26)}) man.push_back(d);
    std::vector<int> ex = {-1074, -1073, -1060, -1023, -1022, -1021, -600, -538, -511, -60, -54, -53, -52, -27, -26, -2, -1, 0, 1, 2, 26, 27, 52, 53, 54, 60, 511, 512, 538, 600, 960, 1021, 1022, 1023}; if (th) for (int e : {-1050, -1040, -970, -800, -512, -510, -540, -28, -25, -10, -3, 3, 10, 25, 28, 510, 540, 800, 970, 996, 997, 1000, 1020}) ex.push_back(e);
    HV = {0, INFINITY, 3, 4, 5, 12, 13, 8, 15, 17, 1e308, 1e-308, DBL_MAX}; for (double m : man) for (int e : ex) HV.push_back(ldexp(m, e)); uint64_t n = HV.size();
    mc::outcome_name(0, "finite"); mc::outcome_name(1, "overflow"); mc::outcome_name(2, "infinite argument"); mc::outcome_name(3, "quotient"); mc::outcome_name(4, "zero divisor");
    mc::add("hypotenuse", n * n, [=](uint64_t i) {
        double x = HV[i % n], y = HV[i / n], s = SuiteSparse_hypot(x, y); mc::nstep(7); mc::step(mc::hbytes(0, &s, 8));
        double all[] = {SuiteSparse_hypot(-x, y), SuiteSparse_hypot(x, -y), SuiteSparse_hypot(-x, -y), SuiteSparse_hypot(y, x), SuiteSparse_hypot(-y, x), SuiteSparse_hypot(y, -x), SuiteSparse_hypot(-y, -x)};
        for (double v : all) REQ(same(v, s), "hypot of the same magnitudes gives %.17g and %.17g", s, v);
        if (isinf(x) || isinf(y)) { REQ(isinf(s) && s > 0, "an infinite argument gives %g", s); mc::outcome(2); mc::trace(); return; }
        if (x == 0 || y == 0) REQ(s == x + y, "on the axis: %.17g", s);
        REQ(s >= x && s >= y, "%.17g is below an argument", s);
        mpfr_t r, a, b; mpfr_init2(r, 200); mpfr_init2(a, 53); mpfr_init2(b, 53); mpfr_set_d(a, x, MPFR_RNDN); mpfr_set_d(b, y, MPFR_RNDN); mpfr_hypot(r, a, b, MPFR_RNDN);
        if (mpfr_cmp_d(r, DBL_MAX) > 0 || (isinf(s) && mpfr_get_d(r, MPFR_RNDN) >= DBL_MAX * (1 - ldexp(1, -50)))) { REQ(isinf(s) || s >= DBL_MAX * (1 - ldexp(1, -50)), "%.17g for a value above the range", s); mc::outcome(1); }
        else {
            REQ(isfinite(s), "%g although the true value is representable", s);
            double t = mpfr_get_d(r, MPFR_RNDN); mpfr_sub_d(r, r, s, MPFR_RNDN); double err = fabs(mpfr_get_d(r, MPFR_RNDN)), ulp = nextafter(t, INFINITY) - t; if (isinf(ulp)) ulp = t - nextafter(t, 0);
            REQ(err <= 3 * ulp, "%.17g, but the true value is %.17g (%.2f units in the last place)", s, t, err / ulp); mc::outcome(0);
        }
        mpfr_clear(r); mpfr_clear(a); mpfr_clear(b); mc::trace();
    }, [=](uint64_t i) { return mc::fmt("SuiteSparse_hypot (%.17g, %.17g) and its seven symmetric forms", HV[i % n], HV[i / n]); });
    // complex division: all quadruples of a grid, results in fresh variables or written over an operand
    DV = {0}; std::vector<double> dm = {1, 1.5}; if (th) dm = {1, 1.75, 1 + ldexp(1, -52)}; std::vector<int> de = {-250, -40, 0, 1, 40, 250}; if (th) de = {-250, -100, -53, -1, 0, 1, 100, 250};
    for (double m : dm) for (int e : de) { DV.push_back(ldexp(m, e)); if (th ? e % 50 == 0 : e != 40) DV.push_back(-ldexp(m, e)); }
    uint64_t d = DV.size();
    mc::add("complex-quotient", d * d * d * d, [=](uint64_t i) {
        mc::Dec D(i); double ar = DV[D(d)], ai = DV[D(d)], br = DV[D(d)], bi = DV[D(d)];
        double c[2] = {777, 777}; int z = SuiteSparse_divcomplex(ar, ai, br, bi, c, c + 1);
        double o[2] = {ar, ai}; int z2 = SuiteSparse_divcomplex(o[0], o[1], br, bi, o, o + 1); double q[2] = {br, bi}; int z3 = SuiteSparse_divcomplex(ar, ai, q[0], q[1], q, q + 1);
        mc::nstep(2); mc::step(mc::hbytes(z, c, 16));
        REQ(z == (br == 0 && bi == 0), "returned %d", z); REQ(z2 == z && z3 == z, "the result code depends on where the result goes");
        if (z) { mc::outcome(4); mc::trace(); return; }
        REQ(same(o[0], c[0]) && same(o[1], c[1]), "over the dividend: %.17g %+.17gi instead of %.17g %+.17gi", o[0], o[1], c[0], c[1]); REQ(same(q[0], c[0]) && same(q[1], c[1]), "over the divisor: %.17g %+.17gi instead of %.17g %+.17gi", q[0], q[1], c[0], c[1]);
        REQ(isfinite(c[0]) && isfinite(c[1]), "the quotient is %g %+gi", c[0], c[1]);
        if (bi == 0) REQ(c[0] == ar / br && c[1] == ai / br, "a real divisor gives %.17g %+.17gi", c[0], c[1]);
        if (br == 0) REQ(c[0] == ai / bi && c[1] == -(ar / bi), "an imaginary divisor gives %.17g %+.17gi", c[0], c[1]);
        // |c*b - a| <= 2^-50 |a|, exactly
        F r1 = F(c[0]) * F(br) - F(c[1]) * F(bi) - F(ar), r2 = F(c[0]) * F(bi) + F(c[1]) * F(br) - F(ai), e = r1 * r1 + r2 * r2, a = F(ar) * F(ar) + F(ai) * F(ai); mpfr_mul_2si(a.f, a.f, -100, MPFR_RNDN);
        REQ(mpfr_lessequal_p(e.f, a.f), "the quotient %.17g %+.17gi is not accurate", c[0], c[1]); mc::outcome(3); mc::trace();
    }, [=](uint64_t i) { mc::Dec D(i); double a = DV[D(d)], b = DV[D(d)], c = DV[D(d)], e = DV[D(d)]; return mc::fmt("(%.17g %+.17gi) / (%.17g %+.17gi), into new variables, over the dividend, over the divisor", a, b, c, e); });
    // the divisor is anywhere in the range: only the flag
    mc::add("zero-divisor-flag", n * n * 4, [=](uint64_t i) {
        mc::Dec D(i); double x = HV[D(n)], y = HV[D(n)], cr, ci; int s = (int) D(4); if (isinf(x) || isinf(y)) return; if (s & 1) x = -x; if (s & 2) y = -y;
        int z = SuiteSparse_divcomplex(1, -2, x, y, &cr, &ci); mc::step(z); REQ(z == (x == 0 && y == 0), "division by %g %+gi returned %d", x, y, z); mc::outcome(z ? 4 : 3); mc::trace();
    }, [=](uint64_t i) { mc::Dec D(i); double x = HV[D(n)], y = HV[D(n)]; int s = (int) D(4); return mc::fmt("(1 - 2i) / (%.17g %+.17gi)", s & 1 ? -x : x, s & 2 ? -y : y); });
    mc::assume("the accuracy of a complex quotient is claimed while the magnitudes of all non-zero parts lie in 2^-250..2^250 (no underflow of a partial product matters there); beyond that only the zero-divisor flag is claimed");
}
// ================================================================ captured printing
namespace cap {
static std::string text; static uint64_t calls;
static int print(const char *f, ...) { va_list a; va_start(a, f); char b[16384]; int n = vsnprintf(b, sizeof b, f, a); va_end(a); text += b; calls++; return n; }
static void on() { text.clear(); calls = 0; SuiteSparse_config.printf_func = print; }
static std::vector<std::string> lines() { std::vector<std::string> l; std::string c; for (char x : text) if (x == '\n') { l.push_back(c); c.clear(); } else c += x; if (!c.empty()) l.push_back(c); return l; }
static bool has(const std::string &s, const char *w) { return s.find(w) != std::string::npos; }
static std::vector<std::string> words(const std::string &l, char sep = ' ') { std::vector<std::string> w; std::string c; for (char x : l) if (x == sep || x == '\t') { if (!c.empty()) w.push_back(c); c.clear(); } else c += x; if (!c.empty()) w.push_back(c); return w; }
// all integers that stand in a text
static std::vector<long> ints(const std::string &s) { std::vector<long> r; for (size_t i = 0; i < s.size();) if (isdigit(s[i]) || (s[i] == '-' && i + 1 < s.size() && isdigit(s[i + 1]))) { char *e; r.push_back(strtol(s.c_str() + i, &e, 10)); i = e - s.c_str(); } else i++; return r; }
}
// ================================================================ R01
struct Stat { int k; const char *key; };
static const Stat ST[] = {{AMD_N, "dimension of A"}, {AMD_NZ, "number of nonzeros in A"}, {AMD_SYMMETRY, "symmetry of A"}, {AMD_NZDIAG, "nonzeros on diagonal"}, {AMD_NZ_A_PLUS_AT, "pattern of A+A'"}, {AMD_NDENSE, "# dense rows"}, {AMD_MEMORY, "memory used"}, {AMD_NCMPA, "memory compactions"}, {AMD_LNZ, "excluding diagonal"}, {AMD_NDIV, "divide operations"}, {AMD_NMULTSUBS_LDL, "operations for LDL':"}, {AMD_NMULTSUBS_LU, "operations for LU:"}, {AMD_DMAX, "max nz"}};
static const double SV[] = {-1, 0, 1, 0.25, 7, 65537, 4294967301.0, 9007199254740993.0, 1e300}; static const int NSV = 9, NST = 13;
static const double STA[] = {AMD_OK, AMD_OUT_OF_MEMORY, AMD_INVALID, AMD_OK_BUT_JUMBLED, 5}; static const char *STN[] = {"OK", "out of memory", "invalid matrix", "OK, but jumbled", "unknown"};
static void base(double *I, int which) { static const double B[2][20] = {{0, 10, 40, 0.5, 4, 36, 0, 1200, 0, 30, 31, 90, 120, 6}, {0, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1}}; for (int k = 0; k < 20; k++) I[k] = k < 14 ? B[which][k] : -1; }
static void amd_expect(const double *I)
{
    using namespace cap; auto L = lines(); int st = 4; for (int k = 0; k < 4; k++) if (I[AMD_STATUS] == STA[k]) st = k; int seen = 0;
    auto value = [&](const char *key, bool &found, double &v) { found = false; for (auto &l : L) if (has(l, key) && l.rfind(':') != std::string::npos) { REQ(!found, "'%s' is reported twice", key); found = true; v = strtod(l.c_str() + l.rfind(':') + 1, nullptr); } };
    for (auto &l : L) if (has(l, "status:")) { seen++; std::string s = l.substr(l.find("status:") + 7); while (!s.empty() && s[0] == ' ') s.erase(0, 1); REQ(s == STN[st], "the status is reported as '%s', it is '%s'", s.c_str(), STN[st]); }
    REQ(seen == 1, "the status is reported %d times", seen); bool f; double v = 0;
    for (auto &s : ST) { value(s.key, f, v); double x = I[s.k]; REQ(f == (x >= 0), "'%s' is %s although it is %g", s.key, f ? "reported" : "not reported", x); if (f) { if (s.k == AMD_SYMMETRY) REQ(fabs(v - x) <= 5.1e-5 + 1e-15 * x, "symmetry %g is reported as %g", x, v); else REQ(v == x, "'%s' is reported as %.20g, it is %.20g", s.key, v, x); } }
    double n = I[AMD_N], lnz = I[AMD_LNZ], dv = I[AMD_NDIV], ms = I[AMD_NMULTSUBS_LDL], mu = I[AMD_NMULTSUBS_LU]; value("including diagonal", f, v); REQ(f == (n >= 0 && lnz >= 0), "nonzeros in L with the diagonal: %s", f ? "reported" : "not reported"); if (f) REQ(v == n + lnz, "nonzeros in L with the diagonal: %g", v);
    struct { const char *key; double v; } fl[] = {{"chol flop count", n + dv + 2 * ms}, {"LDL' flop count for real", dv + 2 * ms}, {"LDL' flop count for complex", 9 * dv + 8 * ms}, {"LU flop count for real", dv + 2 * mu}, {"LU flop count for complex", 9 * dv + 8 * mu}};
    bool want = n >= 0 && dv >= 0 && ms >= 0 && mu >= 0; for (auto &x : fl) { value(x.key, f, v); REQ(f == want, "'%s' is %s", x.key, f ? "reported" : "not reported"); if (f) REQ(v == x.v || fabs(v - x.v) <= 1e-14 * x.v, "'%s' is reported as %g, it is %g", x.key, v, x.v); }
}
static const long CV[] = {-5, -1, 0, 1, 2, 7, 1000, 2147483647L, -2147483648L, 2147483648L, -4294967296L, 4294967297L, (1L << 40) + 3, -(1L << 40), 9223372036854775807L}; static const int NCV = 15;
static void r01(bool th)
{
    mc::outcome_name(0, "everything known"); mc::outcome_name(1, "something unknown"); mc::outcome_name(2, "orderings run"); mc::outcome_name(3, "COLAMD report"); mc::outcome_name(4, "silent");
    uint64_t pairs = (uint64_t) NST * NST * NSV * NSV;
    mc::add("amd-statistics", pairs * 5 * 2 * 2, [=](uint64_t i) {
        mc::Dec D(i); int lg = D(2), bs = D(2), st = D(5), a = D(NST), b = D(NST); double I[AMD_INFO], J[AMD_INFO]; base(I, bs); I[AMD_STATUS] = STA[st]; I[ST[a].k] = SV[D(NSV)]; I[ST[b].k] = SV[D(NSV)]; memcpy(J, I, sizeof I);
        cap::on(); if (lg) amd_l_info(I); else amd_info(I); mc::step(mc::hbytes(lg, cap::text.data(), cap::text.size())); REQ(!memcmp(I, J, sizeof I), "Info was changed"); amd_expect(I);
        bool all = true; for (auto &s : ST) if (!(I[s.k] >= 0)) all = false; mc::outcome(!all); mc::trace();
    }, [=](uint64_t i) { mc::Dec D(i); int lg = D(2), bs = D(2), st = D(5), a = D(NST), b = D(NST); double x = SV[D(NSV)], y = SV[D(NSV)]; return mc::fmt("%s: status %g, %s, then '%s' = %g, '%s' = %g", lg ? "amd_l_info" : "amd_info", STA[st], bs ? "nothing else known" : "all statistics known", ST[a].key, x, ST[b].key, y); });
    static const double AL[] = {-2, -1e-9, 0, 0.5, 1, 10, 123456, 1e300}, AG[] = {0, 1, -1, 0.5, 1e-300};
    mc::add("amd-parameters", 2 * 41, [=](uint64_t i) {
        mc::Dec D(i); int lg = D(2), k = D(41); double C[AMD_CONTROL]; double al = AMD_DEFAULT_DENSE, ag = AMD_DEFAULT_AGGRESSIVE; memset(C, 0, sizeof C); if (k < 40) { al = C[AMD_DENSE] = AL[k / 5]; ag = C[AMD_AGGRESSIVE] = AG[k % 5]; } double *p = k < 40 ? C : nullptr;
        cap::on(); if (lg) amd_l_control(p); else amd_control(p); mc::step(mc::hbytes(lg, cap::text.data(), cap::text.size())); int nd = 0, na = 0, ns = 0; bool none = cap::has(cap::text, "no rows treated as dense");
        REQ(none == (al < 0), "dense rows: %s", none ? "none" : "some");
        for (auto &l : cap::lines()) { auto w = cap::words(l); if (w.empty()) continue; if (cap::has(l, "dense row parameter")) { nd++; double v = strtod(w.back().c_str(), nullptr); REQ(fabs(v - al) <= 1e-5 * fabs(al), "the dense row parameter is reported as %g, it is %g", v, al); } if (cap::has(l, "aggressive absorption")) { na++; REQ(w.back() == (ag != 0 ? "yes" : "no"), "aggressive absorption is reported as '%s'", w.back().c_str()); } if (cap::has(l, "size of AMD integer")) { ns++; REQ(w.back() == (lg ? "8" : "4"), "the integer size is reported as %s", w.back().c_str()); } }
        REQ(nd == 1 && na == 1 && ns == 1, "a parameter is missing or repeated"); mc::outcome(0); mc::trace();
    }, [=](uint64_t i) { mc::Dec D(i); int lg = D(2), k = D(41); return mc::fmt("%s, %s", lg ? "amd_l_control" : "amd_control", k == 40 ? "no parameters" : mc::fmt("dense %g, aggressive %g", AL[k / 5], AG[k % 5]).c_str()); });
    // the real ordering, then its report
    uint64_t pats = 512;
    mc::add("orderings-and-their-report", pats * 2 * 3, [=](uint64_t i) {
        mc::Dec D(i); int lg = D(2), flaw = D(3); int pat = D(pats); std::vector<int> p{0}, a; for (int j = 0; j < 3; j++) { for (int r = 0; r < 3; r++) { int q = flaw == 1 ? 2 - r : r; if (pat >> (j * 3 + q) & 1) a.push_back(flaw == 2 && a.empty() ? 3 : q); } p.push_back((int) a.size()); }
        double I[AMD_INFO]; int P[3]; SuiteSparse_long LP[3]; std::vector<SuiteSparse_long> lp(p.begin(), p.end()), la(a.begin(), a.end()); a.push_back(0); la.push_back(0); use_tracked();
        int r = lg ? (int) amd_l_order(3, lp.data(), la.data(), LP, nullptr, I) : amd_order(3, p.data(), a.data(), P, nullptr, I); REQ(r == I[AMD_STATUS], "returned %d, status %g", r, I[AMD_STATUS]);
        cap::on(); if (lg) amd_l_info(I); else amd_info(I); mc::step(mc::hbytes(lg, cap::text.data(), cap::text.size())); amd_expect(I); mc::outcome(2); mc::trace();
    }, [=](uint64_t i) { mc::Dec D(i); int lg = D(2), flaw = D(3); int pat = D(pats); return mc::fmt("%s of the 3-by-3 pattern %d%s, then the report", lg ? "amd_l_order" : "amd_order", pat, flaw == 1 ? " with the columns reversed" : flaw == 2 ? " with a row index out of range" : ""); });
    // COLAMD and SYMAMD: status x the three details x the counters
    uint64_t tot = 12 * NCV * NCV * NCV * 4;
    mc::add("colamd-reports", tot, [=](uint64_t i) {
        mc::Dec D(i); int which = D(4), lg = which & 1, sy = which >> 1, st = 1 - (int) D(12); long v[3]; for (long &x : v) x = CV[D(NCV)]; if (!lg) for (long x : v) if (x != (int) x) return;
        int s4[COLAMD_STATS]; SuiteSparse_long s8[COLAMD_STATS]; long s[COLAMD_STATS]; memset(s, 0, sizeof s); long c0 = 3 + (v[0] & 7), c1 = lg ? (1L << 35) + 11 : 2147483640L; s[COLAMD_DENSE_ROW] = c0; s[COLAMD_DENSE_COL] = c1; s[COLAMD_DEFRAG_COUNT] = 29; s[COLAMD_STATUS] = st; s[COLAMD_INFO1] = v[0]; s[COLAMD_INFO2] = v[1]; s[COLAMD_INFO3] = v[2];
        for (int k = 0; k < COLAMD_STATS; k++) { s4[k] = (int) s[k]; s8[k] = s[k]; }
        cap::on(); if (sy) { if (lg) symamd_l_report(s8); else symamd_report(s4); } else { if (lg) colamd_l_report(s8); else colamd_report(s4); } mc::step(mc::hbytes(which, cap::text.data(), cap::text.size())); mc::outcome(3); mc::trace();
        for (int k = 0; k < COLAMD_STATS; k++) REQ(s4[k] == (int) s[k] && s8[k] == s[k], "the statistics were changed");
        std::string t = cap::text; size_t q = t.find("OK."), e = t.find("ERROR."); REQ((q != std::string::npos) == (st >= 0) && (e != std::string::npos) == (st < 0), "status %d is reported as %s", st, q != std::string::npos ? "OK" : e != std::string::npos ? "ERROR" : "nothing");
        REQ(cap::has(t, sy ? "symamd" : "colamd"), "the report does not name the routine"); auto num = cap::ints(t.substr(st >= 0 ? q : e)); std::vector<long> want;
        if (st == 1) want = {v[2], v[1], v[0], c0, c1, 29}; else if (st == 0) want = {c0, c1, 29}; else if (st <= -3 && st >= -5) want = {v[0]}; else if (st == -6) want = {0, v[0]}; else if (st == -7) want = {v[0], v[1]}; else if (st == -8) want = {v[0], v[1]}; else if (st == -9) { long hi = (long) ((unsigned long) v[2] - 1); if (!lg) hi = (int) hi; want = {v[1], 0, hi, v[0]}; }
        // the numbers of the report are exactly the facts, in any order
        auto a = num, b = want; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); if (st == -6) { REQ(std::find(num.begin(), num.end(), v[0]) != num.end(), "p [0] = %ld is not reported", v[0]); } else { if (st == -9 && (v[2] == (lg ? LONG_MIN : INT_MIN))) return; std::string g; for (long x : num) g += mc::fmt(" %ld", x); REQ(a == b, "status %d with the details %ld %ld %ld and counters %ld %ld 29 is reported with the numbers%s", st, v[0], v[1], v[2], c0, c1, g.c_str()); }
        const char *kw[] = {"", "A (row", "p (col", "rows", "columns", "nonzero", "p [0]", "too small", "Column", "Row index", "emory"}; if (st < 0 && st >= -10) REQ(cap::has(t, kw[-st]), "status %d is reported as: %s", st, t.substr(e).c_str());
        if (st == 1) REQ(cap::has(t, "unsorted or duplicate"), "unsorted input is not reported");
    }, [=](uint64_t i) { mc::Dec D(i); int which = D(4), st = 1 - (int) D(12); long v[3]; for (long &x : v) x = CV[D(NCV)]; return mc::fmt("%s%s_report, status %d, details %ld %ld %ld", which >> 1 ? "symamd" : "colamd", which & 1 ? "_l" : "", st, v[0], v[1], v[2]); });
    mc::add("silence", 16, [=](uint64_t i) {
        int s4[COLAMD_STATS] = {0}; SuiteSparse_long s8[COLAMD_STATS] = {0}; double I[AMD_INFO], C[AMD_CONTROL] = {10, 1}; base(I, 0); bool null = i & 1; cap::on(); if (!null) SuiteSparse_config.printf_func = nullptr;
        switch (i >> 1) { case 0: amd_info(null ? nullptr : I); break; case 1: amd_l_info(null ? nullptr : I); break; case 2: amd_control(null ? nullptr : C); break; case 3: amd_l_control(null ? nullptr : C); break; case 4: colamd_report(null ? nullptr : s4); break; case 5: symamd_report(null ? nullptr : s4); break; case 6: colamd_l_report(null ? nullptr : s8); break; case 7: symamd_l_report(null ? nullptr : s8); }
        mc::step(mc::hbytes(i, cap::text.data(), cap::text.size())); if (!null) REQ(cap::calls == 0, "printed although printing is disabled"); else { REQ(cap::calls > 0, "nothing printed"); if (i >> 1 >= 4) REQ(cap::has(cap::text, "No statistics"), "no statistics, but: %s", cap::text.c_str()); if (i >> 1 < 2) REQ(!cap::has(cap::text, "status"), "a status without statistics"); } mc::outcome(4); mc::trace();
    }, [=](uint64_t i) { static const char *N[] = {"amd_info", "amd_l_info", "amd_control", "amd_l_control", "colamd_report", "symamd_report", "colamd_l_report", "symamd_l_report"}; return mc::fmt("%s, %s", N[i >> 1], i & 1 ? "no statistics" : "printing disabled"); });
    (void) th;
}
// ================================================================ R02
static const char *KN[] = {"CSC", "Triplet", "Dense"}, *TN[] = {"MPZ", "MPQ", "MPFR", "int64", "double"};
struct Val { const char *num; long den; int exp; };     // num/den * 2^exp
static const Val VALS[] = {{"0", 1, 0}, {"1", 1, 0}, {"-1", 1, 0}, {"7", 1, 0}, {"-123456789", 1, 0}, {"9223372036854775807", 1, 0}, {"-9223372036854775808", 1, 0}, {"123456789012345678901234567890", 1, 0}, {"-3", 7, 0}, {"22", 7, 0}, {"1", 1, -3}, {"-5", 1, -1}, {"1", 3, 0}, {"987654321", 1000, 0}, {"1", 1, 80}, {"-1", 1, -70}};
static const int NV = 16;
static void setv(SLIP_matrix *A, int p, int v)
{
    ref::Q q = ref::Q(ref::Z(VALS[v].num), ref::Z(VALS[v].den)); mpq_t t; mpq_init(t); mpq_set_str(t, mc::fmt("%s/%ld", VALS[v].num, VALS[v].den).c_str(), 10); mpq_canonicalize(t); if (VALS[v].exp > 0) mpq_mul_2exp(t, t, VALS[v].exp); else mpq_div_2exp(t, t, -VALS[v].exp); (void) q;
    switch (A->type) { case SLIP_MPZ: mpz_set_q(A->x.mpz[p], t); break; case SLIP_MPQ: mpq_set(A->x.mpq[p], t); break; case SLIP_MPFR: mpfr_set_q(A->x.mpfr[p], t, MPFR_RNDN); break; case SLIP_INT64: { mpz_t z; mpz_init(z); mpz_set_q(z, t); A->x.int64[p] = mpz_get_si(z); mpz_clear(z); } break; case SLIP_FP64: A->x.fp64[p] = mpq_get_d(t); break; }
    mpq_clear(t);
}
// the decimal text shows the entry: exactly, or rounded to the given number of decimals
static void shows(const SLIP_matrix *A, int p, const std::string &s, int prec, const char *where)
{
    REQ(!s.empty(), "%s no value", where);
    if (A->type <= SLIP_MPQ || A->type == SLIP_INT64) {
        mpq_t a, b; mpq_init(a); mpq_init(b); bool ok = mpq_set_str(a, s.c_str(), 10) == 0; if (A->type == SLIP_MPZ) mpq_set_z(b, A->x.mpz[p]); else if (A->type == SLIP_MPQ) mpq_set(b, A->x.mpq[p]); else mpq_set_si(b, A->x.int64[p], 1); ok = ok && mpq_equal(a, b);
        char t[400]; mpq_get_str(t, 10, b); REQ(ok, "%s the entry %s is printed as '%s'", where, t, s.c_str()); mpq_clear(a); mpq_clear(b); return;
    }
    mpfr_t v, w; mpfr_init2(v, 4000); mpfr_init2(w, 4000); char *e; int dec = A->type == SLIP_FP64 ? 6 : prec; mpfr_strtofr(w, s.c_str(), &e, 10, MPFR_RNDN); REQ(*e == 0, "%s '%s' is not a number", where, s.c_str()); if (A->type == SLIP_FP64) mpfr_set_d(v, A->x.fp64[p], MPFR_RNDN); else mpfr_set(v, A->x.mpfr[p], MPFR_RNDN);
    std::string lit = mpfr_nan_p(v) ? "nan" : ""; mpfr_sub(w, w, v, MPFR_RNDN); mpfr_abs(w, w, MPFR_RNDN); mpfr_set_ui(v, 10, MPFR_RNDN); mpfr_pow_si(v, v, -dec, MPFR_RNDN); mpfr_mul_d(v, v, 0.5000001, MPFR_RNDN); REQ(mpfr_lessequal_p(w, v), "%s printed as '%s', which is not the value to %d decimals", where, s.c_str(), dec); mpfr_clear(v); mpfr_clear(w);
}
// the positions are given by columns for CSC and dense
static void printed(int kind, int type, int lev, int sc, int m, int n, int v0, int mask, const std::vector<std::pair<int, int>> &pos, int nv = NV)
{
    SLIP_options o = defopt(); o.prec = (v0 & 2) ? 128 : 20; o.print_level = lev; session_open(); SLIP_matrix *A = nullptr; int nz = (int) pos.size(); SLIP_info st = SLIP_matrix_allocate(&A, (SLIP_kind) kind, (SLIP_type) type, m, n, kind == 2 ? m * n : nz, false, true, &o); REQ(st == SLIP_OK, "%s", info_name(st));
    if (kind == 0) { for (int j = 0; j <= n; j++) A->p[j] = 0; for (auto &e : pos) A->p[e.second + 1]++; for (int j = 0; j < n; j++) A->p[j + 1] += A->p[j]; }
    if (kind < 2) for (int k = 0; k < nz; k++) { A->i[k] = pos[k].first; if (kind == 1) A->j[k] = pos[k].second; } A->nz = nz; for (int k = 0; k < nz; k++) { if (nv < NV && type < 2) { st = type ? SLIP_mpq_set_ui(A->x.mpq[k], 1, 3) : SLIP_mpz_set_ui(A->x.mpz[k], 1); REQ(st == SLIP_OK, "%s", info_name(st)); } setv(A, k, (v0 + k * (1 + mask % 5)) % nv); }
    if (sc == 1) mpq_set_ui(A->scale, 3, 4); if (sc == 2) mpq_set_str(A->scale, "100000000000000000000000/7", 10);
    uint64_t s0 = snapshot(A); cap::on(); st = SLIP_matrix_check(A, &o); REQ(st == SLIP_OK, "a valid matrix: %s", info_name(st)); REQ(snapshot(A) == s0, "the matrix was changed"); mc::step(mc::hbytes(0, cap::text.data(), cap::text.size()));
    auto L = cap::lines(); std::vector<std::string> ls; for (auto &l : L) { bool b = false; for (char c : l) if (!isspace((unsigned char) c)) b = true; if (b) ls.push_back(l); }
    if (lev < 2) { REQ(cap::calls == 0, "something is printed at level %d: %s", lev, cap::text.c_str()); mc::outcome(0); }
    else {
        REQ(ls.size() >= 2, "the header is missing"); auto hv = cap::ints(ls[0]); std::string h = ls[0]; auto field = [&](const char *k) { size_t q = h.find(k); REQ(q != std::string::npos, "the header does not show %s", k); return strtol(h.c_str() + q + strlen(k), nullptr, 10); };
        REQ(field("nrows:") == m && field("ncols:") == n && field(" nz:") == nz && field("nzmax:") == A->nzmax, "the header is '%s'", h.c_str()); REQ(cap::has(h, (std::string("kind: ") + KN[kind]).c_str()) && cap::has(h, (std::string("type: ") + TN[type]).c_str()), "the header is '%s'", h.c_str());
        auto w = cap::words(ls[1]); char t[400]; mpq_get_str(t, 10, A->scale); REQ(cap::has(ls[1], "scale") && w.back() == t, "the scale factor %s is printed as '%s'", t, ls[1].c_str());
        // what each further line shows, in order
        struct Want { int i, j, p; }; std::vector<Want> W; if (kind == 0) { int p = 0; for (int j = 0; j < n; j++) { W.push_back({-1, j, -1}); for (; p < A->p[j + 1]; p++) W.push_back({(int) A->i[p], -1, p}); } } else if (kind == 1) for (int p = 0; p < nz; p++) W.push_back({(int) A->i[p], (int) A->j[p], p}); else for (int j = 0; j < n; j++) { W.push_back({-1, j, -1}); for (int r = 0; r < m; r++) W.push_back({r, -1, j * m + r}); }
        size_t k = 2, q = 0; bool cut = false; for (; k < ls.size() && q < W.size(); k++, q++) {
            std::string l = ls[k]; if (l.find("...") != std::string::npos && cap::ints(l).empty()) { cut = true; break; }
            std::string what = mc::fmt("[line %zu: '%s']", k + 1, l.c_str()); size_t c = l.find(':'); REQ(c != std::string::npos, "%s not an entry", what.c_str()); auto idx = cap::ints(l.substr(0, c)); std::vector<long> wi; if (W[q].i >= 0) wi.push_back(W[q].i); if (W[q].j >= 0) wi.push_back(W[q].j); REQ(idx == wi, "%s shows another position than (%d,%d)", what.c_str(), W[q].i, W[q].j);
            auto v = cap::words(l.substr(c + 1)); if (W[q].p < 0) REQ(v.empty(), "%s a value after a column header", what.c_str()); else { REQ(v.size() == 1, "%s %zu values", what.c_str(), v.size()); shows(A, W[q].p, v[0], (int) o.prec, what.c_str()); }
        }
        if (cut) { REQ(lev == 2, "the print is cut short at level %d", lev); REQ(k + 1 == ls.size(), "lines after the cut"); REQ(q >= 30, "cut after %zu lines", q); mc::outcome(2); } else { REQ(q == W.size(), "%zu of %zu lines are missing", W.size() - q, W.size()); REQ(k == ls.size(), "unexpected line '%s'", ls[k].c_str()); REQ(lev == 3 || q <= 31, "%zu lines at the terse level", q); mc::outcome(1); }
    }
    SuiteSparse_config.printf_func = xp::xprintf; mfree(A); session_close(); mc::trace();
}
static const int WM[4] = {70001, 1, 70001, 261}, WN[4] = {1, 70001, 70001, 257};
static void printed_wide(uint64_t i)
{
    mc::Dec D(i); int kind = (int) D(3), type = (int) D(5), sh = (int) D(4), lev = 2 + (int) D(2); if (kind == 2 && sh == 2) return; int m = WM[sh], n = WN[sh]; std::vector<std::pair<int, int>> pos;
    if (sh == 2) for (int j = 0; j < n; j += 3) pos.push_back({(int) ((j * 25013L + 7) % m), j}); else for (int j = 0; j < n; j++) for (int r = 0; r < m; r++) pos.push_back({r, j});
    if (kind == 1) std::reverse(pos.begin(), pos.end()); printed(kind, type, lev, 0, m, n, 3, 1, pos, 5);
}
static void r02(bool th)
{
    static const int NR = 13; static const int SM[NR] = {1, 2, 3, 0, 2, 7, 28, 29, 30, 31, 32, 40, 1}, SN[NR] = {1, 2, 2, 3, 0, 6, 1, 1, 1, 1, 1, 9, 70};  // dimensions
    mc::outcome_name(0, "silent"); mc::outcome_name(1, "shown in full"); mc::outcome_name(2, "cut short");
    int nsc = 3; uint64_t masks = 64, tot = 3 * 5 * NR * masks * NV * 4 * nsc;
    mc::add("printed-matrices", tot, [=](uint64_t i) {
        mc::Dec D(i); int kind = D(3), type = D(5), lev = D(4), sh = D(NR), sc = D(nsc), v0 = D(NV); int mask = D(masks); int m = SM[sh], n = SN[sh];
        // the mask chooses the entries (CSC, triplet) of the first six positions, or shifts the values (dense); the last shapes are filled completely, so that a terse print is cut short
        std::vector<std::pair<int, int>> pos; bool big = sh >= 5; if (big && mask > 3) return;
        for (int j = 0; j < n; j++) for (int r = 0; r < m; r++) if (kind == 2 || (big ? (mask == 3 || ((r + j * 3) % (mask + 2)) == 0) : (mask >> ((j * m + r) % 6) & 1))) pos.push_back({r, j});
        if (kind < 2 && !big && (mask >> (m * n > 6 ? 6 : m * n))) return;
        if (kind == 0) { size_t a = 0; for (size_t k = 0; k <= pos.size(); k++) if (k == pos.size() || pos[k].second != pos[a].second) { if (v0 & 1) std::reverse(pos.begin() + a, pos.begin() + k); a = k; } } else if (kind == 1 && (v0 & 1)) std::reverse(pos.begin(), pos.end());
        printed(kind, type, lev, sc, m, n, v0, mask, pos);
    }, [=](uint64_t i) { mc::Dec D(i); int kind = D(3), type = D(5), lev = D(4), sh = D(NR), sc = D(nsc), v0 = D(NV); int mask = D(masks); return mc::fmt("%d-by-%d %s matrix of type %s, entries chosen by mask %d, values from number %d on, scale factor %s, print level %d", SM[sh], SN[sh], KN[kind], TN[type], mask, v0, sc == 0 ? "1" : sc == 1 ? "3/4" : "10^23/7", lev); });
    mc::add("beyond-16-bits", 3 * 5 * 4 * 2, printed_wide, [](uint64_t i) { mc::Dec D(i); int kind = (int) D(3), type = (int) D(5), sh = (int) D(4), lev = 2 + (int) D(2); return mc::fmt("%d-by-%d %s matrix of type %s, print level %d", WM[sh], WN[sh], KN[kind], TN[type], lev); });
    (void) th;
}
void mc::register_spaces(const std::string &prop, bool th) { if (prop == "G01") g01(th); else if (prop == "R01") r01(th); else r02(th); }
