// h_gmp.cpp: S18 (wrappers compute what the wrapped functions compute), S19 (failing allocations inside wrappers)
#include "slipx.h"
#include "slip_internal.h"
#include <functional>
#include <memory>
#include <algorithm>

// ---------------------------------------------------------------- operands
struct Ctx {
    mpz_t z[3]; mpq_t q[3]; mpfr_t f[3]; char kind[3] = {0, 0, 0};   // object k: 'z' 'q' 'f' or 0
    mpz_ptr Z[3]; mpq_ptr Q[3]; mpfr_ptr F[3];                      // operand -> object
    int64_t si = 0; uint64_t ui = 0, uj = 0; double d = 0; mpfr_rnd_t rnd = MPFR_RNDN; int64_t base = 10;
    double od = 0; int64_t ol = 0; int oi = 0; size_t os = 0;
};
typedef SLIP_info (*SF)(Ctx &); typedef void (*DF)(Ctx &);
struct W { const char *name; char out; const char *ops; const char *sc; SF s; DF d; int pre; };
// out: z q f (object 0 is the result), i (sign), I (int), l, d, s (scalar result); ops: operands after the result object
// sc: scalars: i int64, u uint64, v second uint64 (nonzero), d double, r rounding, b base, p precision/size
// pre: 1 second operand divides the first; 2 second operand nonzero; 3 first operand positive
#define WR(NAME, OUT, OPS, SC, PRE, SEXP, DEXP) {NAME, OUT, OPS, SC, [](Ctx &c) -> SLIP_info { return SEXP; }, [](Ctx &c) { DEXP; }, PRE}
static const W WS[] = {
    WR("mpz_set", 'z', "z", "", 0, SLIP_mpz_set(c.Z[0], c.Z[1]), mpz_set(c.Z[0], c.Z[1])),
    WR("mpz_set_ui", 'z', "", "u", 0, SLIP_mpz_set_ui(c.Z[0], c.ui), mpz_set_ui(c.Z[0], c.ui)),
    WR("mpz_set_si", 'z', "", "i", 0, SLIP_mpz_set_si(c.Z[0], c.si), mpz_set_si(c.Z[0], c.si)),
    WR("mpz_get_d", 'd', "z", "", 0, SLIP_mpz_get_d(&c.od, c.Z[1]), c.od = mpz_get_d(c.Z[1])),
    WR("mpz_get_si", 'l', "z", "", 0, SLIP_mpz_get_si(&c.ol, c.Z[1]), c.ol = mpz_get_si(c.Z[1])),
    WR("mpz_set_q", 'z', "q", "", 0, SLIP_mpz_set_q(c.Z[0], c.Q[1]), mpz_set_q(c.Z[0], c.Q[1])),
    WR("mpz_mul", 'z', "zz", "", 0, SLIP_mpz_mul(c.Z[0], c.Z[1], c.Z[2]), mpz_mul(c.Z[0], c.Z[1], c.Z[2])),
    WR("mpz_submul", 'z', "zz", "", 0, SLIP_mpz_submul(c.Z[0], c.Z[1], c.Z[2]), mpz_submul(c.Z[0], c.Z[1], c.Z[2])),
    WR("mpz_divexact", 'z', "zz", "", 1, SLIP_mpz_divexact(c.Z[0], c.Z[1], c.Z[2]), mpz_divexact(c.Z[0], c.Z[1], c.Z[2])),
    WR("mpz_gcd", 'z', "zz", "", 0, SLIP_mpz_gcd(c.Z[0], c.Z[1], c.Z[2]), mpz_gcd(c.Z[0], c.Z[1], c.Z[2])),
    WR("mpz_lcm", 'z', "zz", "", 0, SLIP_mpz_lcm(c.Z[0], c.Z[1], c.Z[2]), mpz_lcm(c.Z[0], c.Z[1], c.Z[2])),
    WR("mpz_abs", 'z', "z", "", 0, SLIP_mpz_abs(c.Z[0], c.Z[1]), mpz_abs(c.Z[0], c.Z[1])),
    WR("mpz_cmp", 'i', "zz", "", 0, SLIP_mpz_cmp(&c.oi, c.Z[1], c.Z[2]), c.oi = mpz_cmp(c.Z[1], c.Z[2])),
    WR("mpz_cmpabs", 'i', "zz", "", 0, SLIP_mpz_cmpabs(&c.oi, c.Z[1], c.Z[2]), c.oi = mpz_cmpabs(c.Z[1], c.Z[2])),
    WR("mpz_cmp_ui", 'i', "z", "u", 0, SLIP_mpz_cmp_ui(&c.oi, c.Z[1], c.ui), c.oi = mpz_cmp_ui(c.Z[1], c.ui)),
    WR("mpz_sgn", 'I', "z", "", 0, SLIP_mpz_sgn(&c.oi, c.Z[1]), c.oi = mpz_sgn(c.Z[1])),
    WR("mpz_sizeinbase", 's', "z", "b", 0, SLIP_mpz_sizeinbase(&c.os, c.Z[1], c.base), c.os = mpz_sizeinbase(c.Z[1], (int) c.base)),
    WR("mpq_set", 'q', "q", "", 0, SLIP_mpq_set(c.Q[0], c.Q[1]), mpq_set(c.Q[0], c.Q[1])),
    WR("mpq_set_z", 'q', "z", "", 0, SLIP_mpq_set_z(c.Q[0], c.Z[1]), mpq_set_z(c.Q[0], c.Z[1])),
    WR("mpq_set_d", 'q', "", "d", 0, SLIP_mpq_set_d(c.Q[0], c.d), mpq_set_d(c.Q[0], c.d)),
    WR("mpq_set_ui", 'q', "", "uv", 0, SLIP_mpq_set_ui(c.Q[0], c.ui, c.uj), mpq_set_ui(c.Q[0], c.ui, c.uj)),
    WR("mpq_set_si", 'q', "", "iv", 0, SLIP_mpq_set_si(c.Q[0], c.si, c.uj), mpq_set_si(c.Q[0], c.si, c.uj)),
    WR("mpq_set_num", 'q', "z", "", 0, SLIP_mpq_set_num(c.Q[0], c.Z[1]), mpq_set_num(c.Q[0], c.Z[1])),
    WR("mpq_set_den", 'q', "z", "", 3, SLIP_mpq_set_den(c.Q[0], c.Z[1]), mpq_set_den(c.Q[0], c.Z[1])),
    WR("mpq_get_den", 'z', "q", "", 0, SLIP_mpq_get_den(c.Z[0], c.Q[1]), mpq_get_den(c.Z[0], c.Q[1])),
    WR("mpq_get_d", 'd', "q", "", 0, SLIP_mpq_get_d(&c.od, c.Q[1]), c.od = mpq_get_d(c.Q[1])),
    WR("mpq_abs", 'q', "q", "", 0, SLIP_mpq_abs(c.Q[0], c.Q[1]), mpq_abs(c.Q[0], c.Q[1])),
    WR("mpq_add", 'q', "qq", "", 0, SLIP_mpq_add(c.Q[0], c.Q[1], c.Q[2]), mpq_add(c.Q[0], c.Q[1], c.Q[2])),
    WR("mpq_mul", 'q', "qq", "", 0, SLIP_mpq_mul(c.Q[0], c.Q[1], c.Q[2]), mpq_mul(c.Q[0], c.Q[1], c.Q[2])),
    WR("mpq_div", 'q', "qq", "", 2, SLIP_mpq_div(c.Q[0], c.Q[1], c.Q[2]), mpq_div(c.Q[0], c.Q[1], c.Q[2])),
    WR("mpq_cmp", 'i', "qq", "", 0, SLIP_mpq_cmp(&c.oi, c.Q[1], c.Q[2]), c.oi = mpq_cmp(c.Q[1], c.Q[2])),
    WR("mpq_cmp_ui", 'i', "q", "uv", 0, SLIP_mpq_cmp_ui(&c.oi, c.Q[1], c.ui, c.uj), c.oi = mpq_cmp_ui(c.Q[1], c.ui, c.uj)),
    WR("mpq_sgn", 'I', "q", "", 0, SLIP_mpq_sgn(&c.oi, c.Q[1]), c.oi = mpq_sgn(c.Q[1])),
    WR("mpq_equal", 'b', "qq", "", 0, SLIP_mpq_equal(&c.oi, c.Q[1], c.Q[2]), c.oi = mpq_equal(c.Q[1], c.Q[2])),
    WR("mpfr_set", 'f', "f", "r", 0, SLIP_mpfr_set(c.F[0], c.F[1], c.rnd), mpfr_set(c.F[0], c.F[1], c.rnd)),
    WR("mpfr_set_d", 'f', "", "dr", 0, SLIP_mpfr_set_d(c.F[0], c.d, c.rnd), mpfr_set_d(c.F[0], c.d, c.rnd)),
    WR("mpfr_set_si", 'f', "", "ir", 0, SLIP_mpfr_set_si(c.F[0], c.si, c.rnd), mpfr_set_si(c.F[0], c.si, c.rnd)),
    WR("mpfr_set_q", 'f', "q", "r", 0, SLIP_mpfr_set_q(c.F[0], c.Q[1], c.rnd), mpfr_set_q(c.F[0], c.Q[1], c.rnd)),
    WR("mpfr_set_z", 'f', "z", "r", 0, SLIP_mpfr_set_z(c.F[0], c.Z[1], c.rnd), mpfr_set_z(c.F[0], c.Z[1], c.rnd)),
    WR("mpfr_get_z", 'z', "f", "r", 0, SLIP_mpfr_get_z(c.Z[0], c.F[1], c.rnd), mpfr_get_z(c.Z[0], c.F[1], c.rnd)),
    WR("mpfr_get_q", 'q', "f", "r", 0, SLIP_mpfr_get_q(c.Q[0], c.F[1], c.rnd), mpfr_get_q(c.Q[0], c.F[1])),
    WR("mpfr_get_d", 'd', "f", "r", 0, SLIP_mpfr_get_d(&c.od, c.F[1], c.rnd), c.od = mpfr_get_d(c.F[1], c.rnd)),
    WR("mpfr_get_si", 'l', "f", "r", 0, SLIP_mpfr_get_si(&c.ol, c.F[1], c.rnd), c.ol = mpfr_get_si(c.F[1], c.rnd)),
    WR("mpfr_mul", 'f', "ff", "r", 0, SLIP_mpfr_mul(c.F[0], c.F[1], c.F[2], c.rnd), mpfr_mul(c.F[0], c.F[1], c.F[2], c.rnd)),
    WR("mpfr_mul_d", 'f', "f", "dr", 0, SLIP_mpfr_mul_d(c.F[0], c.F[1], c.d, c.rnd), mpfr_mul_d(c.F[0], c.F[1], c.d, c.rnd)),
    WR("mpfr_div_d", 'f', "f", "dr", 0, SLIP_mpfr_div_d(c.F[0], c.F[1], c.d, c.rnd), mpfr_div_d(c.F[0], c.F[1], c.d, c.rnd)),
    WR("mpfr_ui_pow_ui", 'f', "", "uvr", 0, SLIP_mpfr_ui_pow_ui(c.F[0], c.ui, c.uj, c.rnd), mpfr_ui_pow_ui(c.F[0], c.ui, c.uj, c.rnd)),
    WR("mpfr_sgn", 'i', "f", "", 0, SLIP_mpfr_sgn(&c.oi, c.F[1]), c.oi = mpfr_sgn(c.F[1])),
    WR("mpz_init", 'Z', "", "", 0, SLIP_mpz_init(c.z[0]), mpz_init(c.z[0])),
    WR("mpz_init2", 'Z', "", "p", 0, SLIP_mpz_init2(c.z[0], c.uj), mpz_init2(c.z[0], c.uj)),
    WR("mpq_init", 'X', "", "", 0, SLIP_mpq_init(c.q[0]), mpq_init(c.q[0])),
    WR("mpfr_init2", 'Y', "", "p", 0, SLIP_mpfr_init2(c.f[0], c.uj), mpfr_init2(c.f[0], c.uj)),
    WR("mpfr_free_cache", '-', "", "", 0, SLIP_mpfr_free_cache(), mpfr_free_cache()),
};
static const int NW = sizeof WS / sizeof *WS;
// ---------------------------------------------------------------- alphabets
struct Alpha {
    std::vector<ref::Z> z; std::vector<ref::Q> q; std::vector<std::pair<int, ref::Q>> f; // f: precision, value; special values by precision -1..-4
    std::vector<double> d; std::vector<int64_t> si; std::vector<uint64_t> u, v; std::vector<int> prec; std::vector<uint64_t> sizes; std::vector<int> rn;
};
static ref::Z p2(int k) { ref::Z r(1); { ref::Mode m; mpz_mul_2exp(r.v, r.v, k); } return r; }
static ref::Q qq(const ref::Z &a, const ref::Z &b) { ref::Q r; { ref::Mode m; mpz_set(mpq_numref(r.v), a.v); mpz_set(mpq_denref(r.v), b.v); mpq_canonicalize(r.v); } return r; }
static Alpha make_alpha(bool th, bool small)
{
    Alpha A; ref::Z one(1), big = p2(1300) - p2(700) + ref::Z(12345), mid = p2(320) + p2(65) - ref::Z(7);
    std::vector<ref::Z> pos = {one, ref::Z(6), p2(62), p2(63), p2(64) - one, p2(64), p2(64) + one, p2(127) - one, ref::Z("300000000000000000000"), mid};
    if (small) pos = {one, ref::Z(6), p2(64) - one, p2(65), mid, p2(201) + p2(90) + one};
    if (th) { pos.push_back(ref::Z(2)); pos.push_back(p2(63) - one); pos.push_back(p2(128)); pos.push_back(big); pos.push_back(p2(53) + one); }
    else if (!small) { pos.push_back(big); pos.push_back(p2(201) + p2(90) + one); }
    A.z.push_back(ref::Z(0)); for (auto &x : pos) { A.z.push_back(x); A.z.push_back(-x); }
    std::vector<ref::Q> qp = {qq(1, 1), qq(1, 2), qq(6, 5), qq(p2(64) - one, p2(64)), qq(p2(63) + one, 3), qq(mid, p2(130) - one), qq(p2(201) + p2(90) + one, p2(260) - one), qq(one, mid)};
    if (small) qp = {qq(1, 2), qq(6, 5), qq(p2(65), 3), qq(mid, p2(130) - one), qq(p2(201) + p2(90) + one, p2(260) - one)};
    if (th) { qp.push_back(qq(5, 6)); qp.push_back(qq(big, p2(64) + one)); qp.push_back(qq(1, p2(63))); qp.push_back(qq(p2(64) + one, p2(64) - one)); }
    A.q.push_back(ref::Q(0)); for (auto &x : qp) { A.q.push_back(x); ref::Q y = x; { ref::Mode m; mpq_neg(y.v, y.v); } A.q.push_back(y); }
    std::vector<int> pr = small ? std::vector<int>{53, 200} : th ? std::vector<int>{1, 24, 53, 64, 65, 200} : std::vector<int>{2, 53, 65, 200};
    std::vector<ref::Q> fv = {qq(1, 1), qq(3, 2), qq(5, 2), qq(p2(64) - one, 1), qq(p2(130) + one, p2(130)), qq(1, 3), qq(p2(63), 1)};
    if (small) fv = {qq(5, 2), qq(1, 3)};
    for (int p : pr) for (auto &x : fv) { A.f.push_back({p, x}); ref::Q y = x; { ref::Mode m; mpq_neg(y.v, y.v); } A.f.push_back({p, y}); }
    for (int s = 1; s <= 5; s++) A.f.push_back({-s, ref::Q(0)});  // +0 -0 +inf -inf nan
    A.d = {0.0, 1.0, -1.5, 0.1, -1e300, 5e-324, 9007199254740993.0, 1e17}; if (small) A.d = {-1.5, 0.1, 1e300, 5e-324};
    A.si = {0, 1, -1, 7, INT64_MAX, INT64_MIN, INT64_MIN + 1, 1234567890123456789LL}; if (small) A.si = {0, -7, INT64_MIN};
    A.u = {0, 1, 2, 7, (uint64_t) 1 << 63, UINT64_MAX, 10}; if (small) A.u = {0, 7, UINT64_MAX};
    A.v = {1, 2, 9, 100, UINT64_MAX, ((uint64_t) 1 << 63) + 1}; if (small) A.v = {1, 6, UINT64_MAX};
    A.prec = small ? std::vector<int>{53, 130} : th ? std::vector<int>{1, 2, 24, 53, 64, 65, 128, 200} : std::vector<int>{2, 53, 64, 130};
    A.sizes = {1, 2, 64, 65, 128, 1000, 4000};
    A.rn = {MPFR_RNDN, MPFR_RNDZ, MPFR_RNDU, MPFR_RNDD, MPFR_RNDA}; if (small) A.rn = {MPFR_RNDN, MPFR_RNDU};
    return A;
}
static int out_k(const W &w) { return w.out == 'z' || w.out == 'q' || w.out == 'f'; }
// which object stands for which operand
static int alias_count(const W &w) { int n = (int) strlen(w.ops); bool same = out_k(w) && n && w.ops[0] == w.out; if (n == 0) return 1; if (n == 1) return same ? 2 : 1; return same ? 5 : 2; }
static void alias_map(const W &w, int a, int *o)
{   // o[k]: object of operand k (0: result)
    o[0] = 0; o[1] = 1; o[2] = 2; int n = (int) strlen(w.ops); bool same = out_k(w) && n && w.ops[0] == w.out;
    if (n == 1 && a == 1) o[1] = 0;
    if (n == 2 && same) { if (a == 1) o[1] = 0; else if (a == 2) o[2] = 0; else if (a == 3) o[2] = 1; else if (a == 4) o[1] = o[2] = 0; }
    if (n == 2 && !same && a == 1) o[2] = 1;
}
static const int DESTS = 3;
static size_t radix(const Alpha &A, char k) { return k == 'z' ? A.z.size() : k == 'q' ? A.q.size() : A.f.size(); }
static size_t sc_radix(const Alpha &A, char k) { switch (k) { case 'i': return A.si.size(); case 'u': return A.u.size(); case 'v': return A.v.size(); case 'd': return A.d.size(); case 'r': return A.rn.size(); case 'b': return 6; case 'p': return A.sizes.size(); } return 1; }
static uint64_t count(const W &w, const Alpha &A)
{
    uint64_t n = alias_count(w); for (const char *c = w.ops; *c; c++) n *= radix(A, *c); for (const char *c = w.sc; *c; c++) n *= sc_radix(A, *c);
    if (w.out == 'f') n *= A.prec.size(); else if (out_k(w)) n *= DESTS;
    return n;
}
struct Case { const W *w; int alias; int o[3]; size_t v[3]; int dest; size_t sc[4]; bool valid; };
static Case decode(const W &w, const Alpha &A, uint64_t i)
{
    Case c; memset(&c, 0, sizeof c); c.w = &w; mc::Dec d(i); c.alias = (int) d(alias_count(w)); alias_map(w, c.alias, c.o);
    for (int k = 0; w.ops[k]; k++) c.v[k + 1] = d(radix(A, w.ops[k]));
    for (int k = 0; w.sc[k]; k++) c.sc[k] = d(sc_radix(A, w.sc[k]));
    c.dest = w.out == 'f' ? (int) d(A.prec.size()) : out_k(w) ? (int) d(DESTS) : 0;
    c.valid = true; int n = (int) strlen(w.ops);
    // an object has one value: aliased operands must agree; canonical choices only
    if (n == 2 && c.o[1] == c.o[2] && c.v[1] != c.v[2]) c.valid = false;
    if (out_k(w)) for (int k = 1; k <= n; k++) if (c.o[k] == 0 && c.dest) c.valid = false;
    if (w.pre == 2 && A.q[c.v[2]].sgn() == 0) c.valid = false;
    if (w.pre == 3 && A.z[c.v[1]].sgn() <= 0) c.valid = false;
    if (w.pre == 1 && A.z[c.v[2]].sgn() == 0) c.valid = false;
    return c;
}
static void setz(mpz_ptr z, const ref::Z &v) { mpz_set(z, v.v); }
static void setf(mpfr_ptr f, const std::pair<int, ref::Q> &v)
{
    switch (v.first) { case -1: mpfr_set_zero(f, 1); return; case -2: mpfr_set_zero(f, -1); return; case -3: mpfr_set_inf(f, 1); return; case -4: mpfr_set_inf(f, -1); return; case -5: mpfr_set_nan(f); return; }
    mpfr_set_q(f, v.second.v, MPFR_RNDN);
}
static int fprec(const std::pair<int, ref::Q> &v) { return v.first > 0 ? v.first : 70; }
static void build(Ctx &c, const Case &k, const Alpha &A)
{
    const W &w = *k.w; int n = (int) strlen(w.ops);
    c.kind[0] = out_k(w) ? w.out : 0; for (int j = 1; j <= n; j++) c.kind[k.o[j]] = w.ops[j - 1];
    for (int j = 0; j <= n; j++) { c.Z[j] = c.z[k.o[j]]; c.Q[j] = c.q[k.o[j]]; c.F[j] = c.f[k.o[j]]; }
    bool done[3] = {false, false, false};
    for (int j = 1; j <= n; j++) {
        int o = k.o[j]; if (done[o]) continue; done[o] = true;
        if (c.kind[o] == 'z') { mpz_init(c.z[o]); if (w.pre == 1 && j == 1 && k.o[1] != k.o[2]) { ref::Z v = A.z[k.v[1]] * A.z[k.v[2]]; setz(c.z[o], v); } else setz(c.z[o], A.z[k.v[j]]); }
        else if (c.kind[o] == 'q') { mpq_init(c.q[o]); mpq_set(c.q[o], A.q[k.v[j]].v); }
        else { mpfr_init2(c.f[o], fprec(A.f[k.v[j]])); setf(c.f[o], A.f[k.v[j]]); }
    }
    if (c.kind[0] && !done[0]) {
        static const ref::Z d1(-77), d2 = p2(2600) + ref::Z(1);
        if (c.kind[0] == 'z') { mpz_init(c.z[0]); if (k.dest == 1) setz(c.z[0], d1); else if (k.dest == 2) setz(c.z[0], d2); }
        else if (c.kind[0] == 'q') { mpq_init(c.q[0]); if (k.dest == 1) mpq_set_si(c.q[0], -77, 13); else if (k.dest == 2) { mpz_set(mpq_numref(c.q[0]), d2.v); mpz_set_ui(mpq_denref(c.q[0]), 2); } }
        else { mpfr_init2(c.f[0], A.prec[k.dest]); }
    }
    for (int j = 0; w.sc[j]; j++) switch (w.sc[j]) {
        case 'i': c.si = A.si[k.sc[j]]; break; case 'u': c.ui = A.u[k.sc[j]]; break; case 'v': c.uj = A.v[k.sc[j]]; break;
        case 'd': c.d = A.d[k.sc[j]]; break; case 'r': c.rnd = (mpfr_rnd_t) A.rn[k.sc[j]]; break; case 'b': { static const int B[] = {2, 3, 8, 10, 16, 62}; c.base = B[k.sc[j]]; break; }
        case 'p': c.uj = A.sizes[k.sc[j]]; break;
    }
}
static void destroy(Ctx &c)
{
    for (int o = 0; o < 3; o++) { if (c.kind[o] == 'z') SLIP_MPZ_CLEAR(c.z[o]); if (c.kind[o] == 'q') SLIP_MPQ_CLEAR(c.q[o]); if (c.kind[o] == 'f') SLIP_MPFR_CLEAR(c.f[o]); c.kind[o] = 0; }
}
static uint64_t hash_obj(const Ctx &c, int o) { return c.kind[o] == 'z' ? hash_mpz(1, c.z[o]) : c.kind[o] == 'q' ? hash_mpq(2, c.q[o]) : c.kind[o] == 'f' ? hash_mpfr(3, c.f[o]) : 0; }
static std::string show(const Ctx &c, int o)
{
    if (c.kind[o] == 'f') { char b[200]; mpfr_snprintf(b, sizeof b, "%.30Re (prec %ld)", c.f[o], (long) mpfr_get_prec(c.f[o])); return b; }
    ref::Mode m; char *s = c.kind[o] == 'z' ? mpz_get_str(nullptr, 10, c.z[o]) : c.kind[o] == 'q' ? mpq_get_str(nullptr, 10, c.q[o]) : nullptr; std::string r = s ? s : "-"; if (r.size() > 60) r = r.substr(0, 20) + mc::fmt("...(%zu digits)...", r.size()) + r.substr(r.size() - 20); return r;
}
static std::string describe(const Case &k, const Alpha &A)
{
    session_open(); std::string s = mc::fmt("SLIP_%s", k.w->name);
    if (!k.valid) s += " (combination outside the function's domain; skipped)";
    else {
        Ctx c; build(c, k, A); int n = (int) strlen(k.w->ops);
        if (c.kind[0]) s += " result object before: " + show(c, 0);
        for (int j = 1; j <= n; j++) s += mc::fmt(", operand %d = object %d = ", j, k.o[j]) + show(c, k.o[j]);
        for (const char *p = k.w->sc; *p; p++) switch (*p) { case 'i': s += mc::fmt(", int64 %lld", (long long) c.si); break; case 'u': s += mc::fmt(", uint64 %llu", (unsigned long long) c.ui); break; case 'v': case 'p': s += mc::fmt(", uint64 %llu", (unsigned long long) c.uj); break; case 'd': s += mc::fmt(", double %.17g", c.d); break; case 'r': s += mc::fmt(", rounding %d", c.rnd); break; case 'b': s += mc::fmt(", base %lld", (long long) c.base); break; }
        destroy(c);
    }
    SLIP_finalize(); return s;
}
static uint64_t result_hash(const Ctx &c, const W &w)
{
    uint64_t b; switch (w.out) {
        case 'i': return 5 + (c.oi > 0) - (c.oi < 0); case 'I': return 50 + (uint64_t) c.oi; case 'b': return 500 + (c.oi != 0); case 'l': return mc::mix(6, (uint64_t) c.ol); case 's': return mc::mix(7, c.os);
        case 'd': memcpy(&b, &c.od, 8); if (c.od != c.od) b = 0x7ff8; return mc::mix(8, b); case '-': return 9;
        case 'Z': return hash_mpz(mc::mix(10, mpz_size(c.z[0])), c.z[0]); case 'X': return hash_mpq(11, c.q[0]); case 'Y': return mc::mix(12, (uint64_t) mpfr_get_prec(c.f[0])) + (mpfr_nan_p(c.f[0]) ? 1 : 0);
    }
    return hash_obj(c, 0);
}
static void claim_init(Ctx &c, const W &w) { if (w.out == 'Z') c.kind[0] = 'z'; if (w.out == 'X') c.kind[0] = 'q'; if (w.out == 'Y') c.kind[0] = 'f'; }
static void run18(const Case &k, const Alpha &A)
{
    if (!k.valid) { mc::outcome(1); return; }
    const W &w = *k.w; session_open();
    Ctx a, b; build(a, k, A); build(b, k, A);
    uint64_t before[3]; for (int o = 0; o < 3; o++) before[o] = hash_obj(a, o);
    SLIP_info st = w.s(a); REQ(st == SLIP_OK, "the wrapper returned %s", info_name(st));
    w.d(b); uint64_t h = result_hash(a, w); mc::step(h); mc::trace(); mc::outcome(0);
    REQ(h == result_hash(b, w), "the wrapper computed %s, %s computes %s", out_k(w) ? show(a, 0).c_str() : w.out == 'd' ? mc::fmt("%.17g", a.od).c_str() : mc::fmt("%lld", (long long) (w.out == 'l' ? a.ol : w.out == 's' ? (int64_t) a.os : a.oi)).c_str(),
        w.name, out_k(w) ? show(b, 0).c_str() : w.out == 'd' ? mc::fmt("%.17g", b.od).c_str() : mc::fmt("%lld", (long long) (w.out == 'l' ? b.ol : w.out == 's' ? (int64_t) b.os : b.oi)).c_str());
    if (w.out == 'Z' && w.sc[0] == 'p') { REQ((uint64_t) a.z[0]->_mp_alloc * 64 >= a.uj, "room for %d limbs only", a.z[0]->_mp_alloc); }
    for (int o = out_k(w) ? 1 : 0; o < 3; o++) if (a.kind[o]) REQ(hash_obj(a, o) == before[o], "operand object %d was changed to %s", o, show(a, o).c_str());
    claim_init(a, w); claim_init(b, w); destroy(a); destroy(b); session_close();
}
// ---------------------------------------------------------------- printing and scanning
struct PS { const char *name; int kind; const char *text; };   // kind 0 fscanf, 1 asprintf
static const std::vector<std::string> &texts()
{
    static std::vector<std::string> t = {"0", "7", "-12345678901234567890123456789", "  42 ", "+5", "x", "", "-", std::string(200, '9'), "12abc", "\n-3\n"};
    return t;
}
static void run_scan(uint64_t i)
{
    mc::Dec d(i); const std::string &t = texts()[d(texts().size())]; int mode = (int) d(3); session_open();
    // 0: one integer; 1: two integers; 2: a rational
    Ctx a; std::string text = mode == 1 ? t + " 99" : mode == 2 ? t + "/5" : t;
    mpz_init(a.z[0]); mpz_init(a.z[1]); mpq_init(a.q[2]); a.kind[0] = a.kind[1] = 'z'; a.kind[2] = 'q';
    Ctx b; mpz_init(b.z[0]); mpz_init(b.z[1]); mpq_init(b.q[2]); b.kind[0] = b.kind[1] = 'z'; b.kind[2] = 'q';
    std::string pad = text + "\n#"; FILE *f = fmemopen((void *) pad.data(), pad.size(), "r"), *g = fmemopen((void *) pad.data(), pad.size(), "r");
    if (mode == 0 && t.empty()) { fclose(f); fclose(g); f = fopen("/dev/null", "r"); g = fopen("/dev/null", "r"); }
    SLIP_info st; int n;
    if (mode == 0) { st = SLIP_gmp_fscanf(f, "%Zd", a.z[0]); n = gmp_fscanf(g, "%Zd", b.z[0]); }
    else if (mode == 1) { st = SLIP_gmp_fscanf(f, "%Zd %Zd", a.z[0], a.z[1]); n = gmp_fscanf(g, "%Zd %Zd", b.z[0], b.z[1]); }
    else { st = SLIP_gmp_fscanf(f, "%Qd", a.q[2]); n = gmp_fscanf(g, "%Qd", b.q[2]); }
    mc::step(mc::mix(st, hash_obj(a, 0))); mc::trace(); mc::outcome(n < 0 ? 2 : 0);
    REQ(st == (n < 0 ? SLIP_INCORRECT_INPUT : SLIP_OK), "gmp_fscanf gives %d, the wrapper returned %s", n, info_name(st));
    for (int o = 0; o < 3; o++) REQ(hash_obj(a, o) == hash_obj(b, o), "object %d is %s, should be %s", o, show(a, o).c_str(), show(b, o).c_str());
    REQ(ftell(f) == ftell(g), "stream position %ld, should be %ld", ftell(f), ftell(g)); fclose(f); fclose(g); destroy(a); destroy(b); session_close();
}
static const char *FM[] = {"%Rf", "%.40Re", "%.0RUf", "%RZg", "x%.3RDfy", "%R*e", "%.30Zd" , "%d-%s", "%s"};
static int pr_any(char **s, int k, mpfr_rnd_t r, mpfr_ptr f, mpz_ptr z, bool slip)
{
    if (slip) switch (k) { case 5: return SLIP_mpfr_asprintf(s, FM[k], r, f); case 6: return SLIP_mpfr_asprintf(s, FM[k], z); case 7: return SLIP_mpfr_asprintf(s, FM[k], 77, "abc"); case 8: return SLIP_mpfr_asprintf(s, FM[k], ""); default: return SLIP_mpfr_asprintf(s, FM[k], f); }
    switch (k) { case 5: return mpfr_asprintf(s, FM[k], r, f); case 6: return mpfr_asprintf(s, FM[k], z); case 7: return mpfr_asprintf(s, FM[k], 77, "abc"); case 8: return mpfr_asprintf(s, FM[k], ""); default: return mpfr_asprintf(s, FM[k], f); }
}
static void run_print(uint64_t i, const Alpha &A)
{
    mc::Dec d(i); int k = (int) d(9); auto &v = A.f[d(A.f.size())]; mpfr_rnd_t r = (mpfr_rnd_t) A.rn[d(A.rn.size())]; session_open();
    Ctx a; mpfr_init2(a.f[0], fprec(v)); setf(a.f[0], v); mpz_init(a.z[1]); mpz_set(a.z[1], A.z[A.z.size() - 1].v); a.kind[0] = 'f'; a.kind[1] = 'z';
    uint64_t h0 = hash_obj(a, 0), h1 = hash_obj(a, 1);
    char *s = nullptr, *t = nullptr; int st = pr_any(&s, k, r, a.f[0], a.z[1], true), n = pr_any(&t, k, r, a.f[0], a.z[1], false);
    mc::step(s ? mc::hbytes(st, s, strlen(s)) : 0); mc::trace();
    REQ(st == SLIP_OK && n >= 0, "the wrapper returned %s", info_name(st)); REQ(s && strcmp(s, t) == 0, "printed '%s', should be '%s'", s, t);
    REQ(hash_obj(a, 0) == h0 && hash_obj(a, 1) == h1, "an operand was changed");
    st = SLIP_mpfr_free_str(s); REQ(st == SLIP_OK, "SLIP_mpfr_free_str returned %s", info_name(st)); mpfr_free_str(t); destroy(a); session_close();
}
// ---------------------------------------------------------------- S19
static void precondition(int pre, bool &warm)
{
    if (pre == 8) {     // a successful print, which leaves blocks in the pools of MPFR
        mpfr_t f; mpfr_init2(f, 150); mpfr_set_d(f, 0.1, MPFR_RNDN); char *s = nullptr; SLIP_info st = SLIP_mpfr_asprintf(&s, "%.60Rf", f); REQ(st == SLIP_OK, "status"); SLIP_mpfr_free_str(s); SLIP_MPFR_CLEAR(f);
    }
    warm = pre & 1; if (pre & 1) session_warm();
    if (pre & 2) {  // an earlier wrapper failed
        mpfr_t f; mpz_t z; mpz_init(z); mpfr_init2(f, 100); xa::arm(1); SLIP_info st = SLIP_mpfr_ui_pow_ui(f, 3, 1000, MPFR_RNDN); bool hit = xa::failed; xa::disarm();
        REQ(!hit || st == SLIP_OUT_OF_MEMORY, "the earlier failing call returned %s", info_name(st));
        xa::arm(1); st = SLIP_mpz_set_ui(z, 5); hit = xa::failed; xa::disarm(); REQ(!hit || st == SLIP_OUT_OF_MEMORY, "the earlier failing call returned %s", info_name(st));
        SLIP_MPZ_CLEAR(z); SLIP_MPFR_CLEAR(f);
    }
    if (pre & 4) {  // a successful call that leaves something in the MPFR caches and pools
        mpfr_t f; mpfr_init2(f, 100); SLIP_info st = SLIP_mpfr_ui_pow_ui(f, 3, 1000, MPFR_RNDN); REQ(st == SLIP_OK, "status"); mpz_t z; mpz_init(z); st = SLIP_mpfr_get_z(z, f, MPFR_RNDN); mpq_t q; mpq_init(q); mpq_set_si(q, 22, 7); st = SLIP_mpfr_set_q(f, q, MPFR_RNDN); REQ(st == SLIP_OK, "status"); SLIP_MPZ_CLEAR(z); SLIP_MPQ_CLEAR(q); SLIP_MPFR_CLEAR(f);
    }
}
static const int NPRE = 9;
static void again(const Case &k, const Alpha &A)
{   // later calls work normally
    std::unique_ptr<Ctx> pa(new Ctx), pb(new Ctx); Ctx &a = *pa, &b = *pb; build(a, k, A); build(b, k, A); const W &w = *k.w; SLIP_info st = w.s(a); REQ(st == SLIP_OK, "a later call returned %s", info_name(st)); w.d(b);
    REQ(result_hash(a, w) == result_hash(b, w), "a later call computed a wrong result"); claim_init(a, w); claim_init(b, w); destroy(a); destroy(b);
}
// the library must have forgotten the operands of earlier calls (their storage is gone): free a block outside a wrapper, and fail once more
static void aftermath()
{
    mpfr_t g; mpfr_init2(g, 70); mpfr_set_ui(g, 7, MPFR_RNDN); SLIP_MPFR_CLEAR(g);
    mpfr_t f; mpfr_init2(f, 70); mpfr_set_ui(f, 7, MPFR_RNDN); char *s = nullptr; xa::arm(1); SLIP_info st = SLIP_mpfr_asprintf(&s, "%.40Rf", f); bool hit = xa::failed; xa::disarm();
    REQ(st == (hit ? SLIP_OUT_OF_MEMORY : SLIP_OK), "a later failing call returned %s", info_name(st)); if (!hit) SLIP_mpfr_free_str(s); SLIP_MPFR_CLEAR(f);
}
static void run19(const Case &k, const Alpha &A, int pre)
{
    if (!k.valid) { mc::outcome(1); return; }
    const W &w = *k.w;
    for (uint64_t f = 1; f < 200; f++) {
        bool warm; session_open(); precondition(pre, warm); std::unique_ptr<Ctx> pa(new Ctx); Ctx &a = *pa; build(a, k, A);
        uint64_t before[3]; for (int o = 0; o < 3; o++) before[o] = hash_obj(a, o);
        xa::arm(f); SLIP_info st = w.s(a); uint64_t hit = xa::failed; xa::disarm(); mc::step(mc::mix(mc::mix(mc::mix(f, st), mc::hbytes(pre, w.name, strlen(w.name))), mc::mix(mc::mix(before[0], before[1]), before[2]))); mc::trace();
        REQ(st == (hit ? SLIP_OUT_OF_MEMORY : SLIP_OK), "[failing request %llu] %s but the wrapper returned %s", (unsigned long long) f, hit ? "an allocation failed" : "no allocation failed", info_name(st));
        for (int o = out_k(w) ? 1 : 0; o < 3; o++) if (a.kind[o]) REQ(hash_obj(a, o) == before[o], "[failing request %llu] operand object %d was changed", (unsigned long long) f, o);
        if (!hit) claim_init(a, w);
        uint64_t l0 = xa::live; (void) l0;
        if (f & 1) { destroy(a); again(k, A); } else { again(k, A); destroy(a); }
        pa.reset(); aftermath(); mc::outcome(hit ? 2 : 0);
        SLIP_info fin = SLIP_finalize(); REQ(fin == SLIP_OK, "closing the session: %s", info_name(fin));
        REQ(xa::live == 0, "[failing request %llu] %llu block(s) leaked", (unsigned long long) f, (unsigned long long) xa::live);
        if (!hit) return;
    }
    mc::fail("still failing after 200 requests");
}
static void run19_scan(uint64_t i)
{
    mc::Dec d(i); const std::string &t = texts()[d(texts().size())]; int pre = (int) d(NPRE), mode = 0;
    for (uint64_t f = 1; f < 400; f++) {
        bool warm; session_open(); precondition(pre, warm); Ctx a; mpz_init(a.z[0]); a.kind[0] = 'z'; mpq_init(a.q[1]); a.kind[1] = 'q';
        std::string pad = (mode ? t + "/7" : t) + "\n#"; FILE *fp = fmemopen((void *) pad.data(), pad.size(), "r");
        xa::arm(f); SLIP_info st = mode ? SLIP_gmp_fscanf(fp, "%Qd", a.q[1]) : SLIP_gmp_fscanf(fp, "%Zd", a.z[0]); uint64_t hit = xa::failed; xa::disarm(); fclose(fp); mc::step(mc::mix(mc::mix(f, st), hit)); mc::trace();
        REQ(!hit || st == SLIP_OUT_OF_MEMORY, "[failing request %llu] an allocation failed but the wrapper returned %s", (unsigned long long) f, info_name(st));
        destroy(a); mc::outcome(hit ? 2 : 0);
        SLIP_info fin = SLIP_finalize(); REQ(fin == SLIP_OK && xa::live == 0, "[failing request %llu] %llu block(s) leaked", (unsigned long long) f, (unsigned long long) xa::live);
        if (!hit) return;
    }
    mc::fail("still failing after 400 requests");
}
static void run19_print(uint64_t i, const Alpha &A)
{
    mc::Dec d(i); int k = (int) d(9); auto &v = A.f[d(A.f.size())]; int pre = (int) d(NPRE);
    for (uint64_t f = 1; f < 400; f++) {
        bool warm; session_open(); precondition(pre, warm); Ctx a; mpfr_init2(a.f[0], fprec(v)); setf(a.f[0], v); mpz_init(a.z[1]); mpz_set(a.z[1], A.z.back().v); a.kind[0] = 'f'; a.kind[1] = 'z';
        uint64_t h0 = hash_obj(a, 0), h1 = hash_obj(a, 1); char *s = nullptr;
        xa::arm(f); SLIP_info st = (SLIP_info) pr_any(&s, k, MPFR_RNDU, a.f[0], a.z[1], true); uint64_t hit = xa::failed; xa::disarm(); mc::step(mc::mix(mc::mix(f, st), hit)); mc::trace();
        REQ(st == (hit ? SLIP_OUT_OF_MEMORY : SLIP_OK), "[failing request %llu] %llu failed, the wrapper returned %s", (unsigned long long) f, (unsigned long long) hit, info_name(st));
        REQ(hash_obj(a, 0) == h0 && hash_obj(a, 1) == h1, "[failing request %llu] an operand was changed", (unsigned long long) f);
        if (!hit) { st = SLIP_mpfr_free_str(s); REQ(st == SLIP_OK, "SLIP_mpfr_free_str"); }
        st = (SLIP_info) pr_any(&s, k, MPFR_RNDU, a.f[0], a.z[1], true); REQ(st == SLIP_OK, "[failing request %llu] a later call returned %s", (unsigned long long) f, info_name(st)); SLIP_mpfr_free_str(s);
        destroy(a); mc::outcome(hit ? 2 : 0); SLIP_info fin = SLIP_finalize(); REQ(fin == SLIP_OK && xa::live == 0, "[failing request %llu] %llu block(s) leaked", (unsigned long long) f, (unsigned long long) xa::live);
        if (!hit) return;
    }
    mc::fail("still failing after 400 requests");
}
// one call that scans several integers (enough of them to grow the list of blocks) or a rational; fault < 0: none
static void scan_many(int n, bool fault)
{
    for (uint64_t f = 1; f < 400; f++) {
        session_open(); std::vector<__mpz_struct> z(40); for (auto &x : z) mpz_init(&x); mpq_t q; mpq_init(q); std::string t, fm; for (int k = 0; k < n; k++) { t += mc::fmt("%d ", 1000 + k); fm += "%Zd "; }
        if (!n) t = "22/7 ";
        t += "#"; FILE *fp = fmemopen((void *) t.data(), t.size(), "r"); if (fault) xa::arm(f);
        SLIP_info st = n == 0 ? SLIP_gmp_fscanf(fp, "%Qd", q) : SLIP_gmp_fscanf(fp, fm.c_str(), &z[0], &z[1], &z[2], &z[3], &z[4], &z[5], &z[6], &z[7], &z[8], &z[9], &z[10], &z[11], &z[12], &z[13], &z[14], &z[15], &z[16], &z[17], &z[18], &z[19],
            &z[20], &z[21], &z[22], &z[23], &z[24], &z[25], &z[26], &z[27], &z[28], &z[29], &z[30], &z[31], &z[32], &z[33], &z[34], &z[35], &z[36], &z[37], &z[38], &z[39]);
        uint64_t hit = xa::failed; xa::disarm(); fclose(fp); mc::step(mc::mix(mc::mix(f, st), hit)); mc::trace();
        REQ(st == (hit ? SLIP_OUT_OF_MEMORY : SLIP_OK), "[failing request %llu] %llu failed, the wrapper returned %s", (unsigned long long) f, (unsigned long long) hit, info_name(st));
        if (!hit) { for (int k = 0; k < n; k++) REQ(mpz_cmp_ui(&z[k], 1000 + k) == 0, "wrong value"); if (!n) REQ(mpq_cmp_si(q, 22, 7) == 0, "wrong value"); }
        for (auto &x : z) SLIP_MPZ_CLEAR(&x);
        SLIP_MPQ_CLEAR(q);
        SLIP_info fin = SLIP_finalize(); REQ(fin == SLIP_OK && xa::live == 0, "[failing request %llu] %llu block(s) leaked", (unsigned long long) f, (unsigned long long) xa::live);
        if (!hit) return;
    }
}
static const int MANY[3] = {0, 2, 40};
void mc::register_spaces(const std::string &prop, bool th)
{
    mc::outcome_name(0, "completed"); mc::outcome_name(1, "outside the domain of the function"); mc::outcome_name(2, prop == "S18" ? "refused input" : "allocation failure handled");
    const char *var = getenv("MC_VARIANT"); bool small = var && *var; std::string pfx = small ? "list1:" : "";
    if (prop == "S18") {
        auto A = std::make_shared<Alpha>(make_alpha(true, false));
        for (int w = 0; w < NW; w++) mc::add(WS[w].name, count(WS[w], *A), [A, w](uint64_t i) { run18(decode(WS[w], *A, i), *A); }, [A, w](uint64_t i) { return describe(decode(WS[w], *A, i), *A); });
        mc::add("gmp_fscanf", texts().size() * 3, run_scan, [](uint64_t i) { return "scan of '" + texts()[i % texts().size()] + mc::fmt("', mode %d", (int) (i / texts().size())); });
        mc::add("gmp_fscanf-several", 41, [](uint64_t i) { scan_many((int) i, false); }, [](uint64_t i) { return mc::fmt("one call scans %d integers (0: a rational)", (int) i); });
        mc::add("mpfr_asprintf", 9 * A->f.size() * A->rn.size(), [A](uint64_t i) { run_print(i, *A); }, [A](uint64_t i) { return std::string("format ") + FM[i % 9] + mc::fmt(" value %d", (int) (i / 9 % A->f.size())); });
        mc::assume("GMP 6.3 and MPFR 4.2.1 called directly are the reference; operands outside the domain of a wrapped function (zero divisors, inexact divexact, non-canonical rationals, non-finite doubles to rationals) are excluded");
    }
    if (prop == "S19") {
        auto A = std::make_shared<Alpha>(make_alpha(th, false));
        for (int w = 0; w < NW; w++) { uint64_t n = count(WS[w], *A); int np = small ? 1 : NPRE; mc::add(pfx + WS[w].name, n * np, [A, w, n](uint64_t i) { run19(decode(WS[w], *A, i % n), *A, (int) (i / n)); }, [A, w, n](uint64_t i) { return describe(decode(WS[w], *A, i % n), *A) + mc::fmt(", history %d, every failing request in turn", (int) (i / n)); }); }
        mc::add(pfx + "gmp_fscanf", texts().size() * NPRE, run19_scan, [](uint64_t i) { return "scan of '" + texts()[i % texts().size()] + "', every failing request in turn"; });
        mc::add(pfx + "mpfr_asprintf", 9 * A->f.size() * NPRE, [A](uint64_t i) { run19_print(i, *A); }, [](uint64_t i) { return std::string("format ") + FM[i % 9] + ", every failing request in turn"; });
        if (!small) mc::add("gmp_fscanf-several", 3, [](uint64_t i) { scan_many(MANY[i], true); }, [](uint64_t i) { return i ? mc::fmt("one call scans %d integers, every failing request in turn", MANY[i]) : std::string("one call scans a rational, every failing request in turn"); });
        mc::assume("an object whose initialisation failed is not initialised and is not cleared; the wrapped functions of GMP 6.3 and MPFR 4.2.1 determine which allocations exist");
    }
}
