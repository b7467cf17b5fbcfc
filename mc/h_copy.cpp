// h_copy.cpp: S07 (copies between all forms), S08 (float to integer), S09 (conversion to int64)
#include "slipx.h"
#include "ref_fp.h"
#include <map>
#include <memory>
#include <algorithm>
using ref::Q; using ref::Z;

static const mpfr_rnd_t RND[5] = {MPFR_RNDN, MPFR_RNDZ, MPFR_RNDU, MPFR_RNDD, MPFR_RNDA};
static const char *KN[3] = {"CSC", "triplet", "dense"}, *TN[5] = {"MPZ", "MPQ", "MPFR", "INT64", "FP64"};
struct Val { Q q; int special = 0; };           // special: 1 NaN, 2 +Inf, 3 -Inf, 4 -0.0
struct Ent { int i, j; Val v; };
struct Src { int m, n; std::vector<Ent> e; int kind, type; Q scale = Q(1); bool shallow = false; int slack = 0; long prec = 128; };

static bool fits_double(const Q &q)
{
    if (q.sgn() == 0) return true; double d; { ref::Mode m; d = mpq_get_d(q.v); } return std::isfinite(d) && Q(d) == q;
}
static std::string vstr(const Val &v) { return v.special == 1 ? "NaN" : v.special == 2 ? "Inf" : v.special == 3 ? "-Inf" : v.special == 4 ? "-0.0" : v.q.str(); }
static std::string str(const Src &s)
{
    std::string r = mc::fmt("%s %s%s %d-by-%d scale %s slack %d {", KN[s.kind], TN[s.type], s.shallow ? " (shallow)" : "", s.m, s.n, s.scale.str().c_str(), s.slack);
    for (auto &e : s.e) r += mc::fmt(" (%d,%d)=%s", e.i, e.j, vstr(e.v).c_str());
    return r + " }";
}
// owned base matrix + optional shallow view of it
struct Made { SLIP_matrix *base = nullptr, *view = nullptr; SLIP_matrix *get() { return view ? view : base; } void clear() { if (view) mfree(view); mfree(base); } };
static void put(SLIP_matrix *A, int64_t p, const Val &v, const Q &scale)
{
    switch (A->type) {
        case SLIP_MPZ: { Q t = v.q * scale; REQ(t.den() == Z(1), "internal: not an integer"); mpz_set(A->x.mpz[p], mpq_numref(t.v)); } break;
        case SLIP_MPQ: mpq_set(A->x.mpq[p], v.q.v); break;
        case SLIP_MPFR: if (v.special == 1) mpfr_set_nan(A->x.mpfr[p]); else if (v.special == 2) mpfr_set_inf(A->x.mpfr[p], 1); else if (v.special == 3) mpfr_set_inf(A->x.mpfr[p], -1); else if (v.special == 4) mpfr_set_zero(A->x.mpfr[p], -1); else mpfr_set_q(A->x.mpfr[p], v.q.v, MPFR_RNDN); break;
        case SLIP_INT64: A->x.int64[p] = mpz_get_si(mpq_numref(v.q.v)); break;
        case SLIP_FP64: { ref::Mode m; A->x.fp64[p] = v.special == 1 ? NAN : v.special == 2 ? INFINITY : v.special == 3 ? -INFINITY : v.special == 4 ? -0.0 : mpq_get_d(v.q.v); } break;
    }
}
static Made make(const Src &s)
{
    Made r; SLIP_options o = defopt(); o.prec = (int32_t) s.prec; int64_t nz = (int64_t) s.e.size();
    SLIP_info st = SLIP_matrix_allocate(&r.base, (SLIP_kind) s.kind, (SLIP_type) s.type, s.m, s.n, nz + s.slack, false, true, &o);
    REQ(st == SLIP_OK && r.base, "allocating the source returned %s", info_name(st)); SLIP_matrix *A = r.base;
    if (s.kind == SLIP_DENSE) { for (int64_t p = 0; p < (int64_t) s.m * s.n; p++) put(A, p, Val{Q(0)}, s.scale); for (auto &e : s.e) put(A, e.i + (int64_t) e.j * s.m, e.v, s.scale); }
    else if (s.kind == SLIP_TRIPLET) { int64_t k = 0; for (auto &e : s.e) { A->i[k] = e.i; A->j[k] = e.j; put(A, k, e.v, s.scale); k++; } A->nz = nz; }
    else { int64_t k = 0; std::vector<std::vector<const Ent *>> col((size_t) s.n); for (auto &e : s.e) col[e.j].push_back(&e); for (int j = 0; j < s.n; j++) { A->p[j] = k; for (auto e : col[j]) { A->i[k] = e->i; put(A, k, e->v, s.scale); k++; } } A->p[s.n] = k; }
    if (s.type == SLIP_MPZ) mpq_set(A->scale, s.scale.v);
    if (s.shallow) {
        st = SLIP_matrix_allocate(&r.view, (SLIP_kind) s.kind, (SLIP_type) s.type, s.m, s.n, nz, true, true, &o);
        REQ(st == SLIP_OK && r.view, "allocating the shallow source returned %s", info_name(st));
        r.view->p = A->p; r.view->i = A->i; r.view->j = A->j; r.view->x.mpz = A->x.mpz; r.view->nz = A->nz; mpq_set(r.view->scale, A->scale);
    }
    return r;
}
static Q value_at(const SLIP_matrix *C, int64_t p)
{
    switch (C->type) {
        case SLIP_MPZ: return Q(Z(C->x.mpz[p]), Z(1)) / Q(C->scale);
        case SLIP_MPQ: return Q(C->x.mpq[p]);
        case SLIP_MPFR: return ref::mpfr_value(C->x.mpfr[p]);
        case SLIP_INT64: return Q((long) C->x.int64[p]);
        case SLIP_FP64: return Q(C->x.fp64[p]);
    }
    return Q(0);
}
// S08: what the documented expansion delivers, value by value (before the common factor is removed the scale is 10^17 or 2^prec)
static Q expanded(const Q &q, int stype, long prec, mpfr_rnd_t rnd)
{
    if (stype == SLIP_FP64) { static const Q e(Z::pow(10, 17), Z(1)); return Q(ref::round_z(ref::round_q(ref::round_q(q, prec, rnd) * e, prec, rnd), rnd), Z(1)) / e; }
    Q e(Z::pow(2, prec), Z(1)); return Q(ref::round_z(ref::round_q(q * e, prec, rnd), rnd), Z(1)) / e;
}
// "" or why entry p of C is not the conversion of v
static std::string check_value(const SLIP_matrix *C, int64_t p, const Val &v, int stype, const SLIP_options *o)
{
    long prec = o ? o->prec : 128; mpfr_rnd_t rnd = o ? o->round : MPFR_RNDN; const Q &q = v.q;
    switch (C->type) {
        case SLIP_MPQ: case SLIP_MPZ: {
            Q want = C->type == SLIP_MPZ && (stype == SLIP_FP64 || stype == SLIP_MPFR) ? expanded(q, stype, prec, rnd) : q;
            Q got = value_at(C, p); if (got != want) return mc::fmt("value %s, expected %s", got.str().c_str(), want.str().c_str());
        } break;
        case SLIP_MPFR: {
            if (mpfr_get_prec(C->x.mpfr[p]) != prec) return mc::fmt("precision %ld, expected %ld", (long) mpfr_get_prec(C->x.mpfr[p]), prec);
            if (!mpfr_number_p(C->x.mpfr[p])) return "not a number";
            Q got = value_at(C, p), want = ref::round_q(q, prec, rnd);
            if (got != want) return mc::fmt("value %s, expected %s", got.str().c_str(), want.str().c_str());
        } break;
        case SLIP_INT64: {
            int64_t want; if (v.special == 1) want = 0; else if (v.special == 2) want = INT64_MAX; else if (v.special == 3) want = INT64_MIN;
            else want = ref::saturate(ref::round_z(q, stype == SLIP_MPFR ? rnd : MPFR_RNDZ));
            if (C->x.int64[p] != want) return mc::fmt("value %lld, expected %lld", (long long) C->x.int64[p], (long long) want);
        } break;
        case SLIP_FP64: {
            double d = C->x.fp64[p]; if (std::isnan(d)) return "NaN";
            static const Q big(1.7976931348623157e308);
            if (big < q.abs()) { if (std::fabs(d) < 1.7976931348623157e308 || (d > 0) != (q.sgn() > 0)) return mc::fmt("value %g for %s", d, q.str().c_str()); break; }
            if (std::isinf(d)) { static const Q almost = Q(1.7976931348623157e308) - Q(1e291); if (almost < q.abs() && (d > 0) == (q.sgn() > 0) && !fits_double(q)) break; return "infinite"; }
            if (fits_double(q)) { if (Q(d) != q) return mc::fmt("value %.20g, expected exactly %s", d, q.str().c_str()); break; }
            double lo = nextafter(d, -INFINITY), hi = nextafter(d, INFINITY);
            if ((std::isfinite(lo) && !(Q(lo) < q)) || (std::isfinite(hi) && !(q < Q(hi)))) return mc::fmt("value %.20g is not next to %s", d, q.str().c_str());
            if (stype == SLIP_MPFR && std::isfinite(lo) && std::isfinite(hi) && std::fabs(d) > 1e-300) {    // one rounding in the requested mode
                Q want = ref::round_q(q, 53, rnd); if (Q(d) != want) return mc::fmt("value %.20g, expected %s", d, want.str().c_str());
            }
        } break;
    }
    return "";
}
static void check_copy(const Src &s, int dk, int dt, const SLIP_options *o)
{
    // the caller holds an open session
    Made src = make(s); SLIP_matrix *A = src.get(), *C = nullptr; uint64_t before = snapshot(A), l0 = xa::live;
    int64_t poison; C = (SLIP_matrix *) &poison;
    SLIP_info st = SLIP_matrix_copy(&C, (SLIP_kind) dk, (SLIP_type) dt, A, o);
    std::string in = mc::fmt("to %s %s [%s]", KN[dk], TN[dt], optstr(o).c_str());
    REQ(st == SLIP_OK, "%s: status %s", in.c_str(), info_name(st));
    REQ(C && C != A, "%s: no copy", in.c_str());
    REQ(snapshot(A) == before, "%s: the source was changed", in.c_str());
    REQ(C->kind == dk && C->type == dt && C->m == s.m && C->n == s.n, "%s: wrong kind, type or dimensions", in.c_str());
    std::string e = valid(C, true);
    // a scale factor of either sign is a scale factor
    if (e == "scale factor not positive" && dt == SLIP_MPZ && mpz_sgn(mpq_denref(C->scale)) > 0 && mpq_sgn(C->scale) != 0 && (s.type == SLIP_FP64 || s.type == SLIP_MPFR)) { ref::Mode m; mpq_t keep; mpq_init(keep); mpq_swap(keep, C->scale); mpq_set_ui(C->scale, 1, 1); e = valid(C, true); mpq_swap(keep, C->scale); mpq_clear(keep); }
    REQ(e.empty(), "%s: the copy is malformed: %s", in.c_str(), e.c_str());
    mc::step(mc::mix((uint64_t) (int64_t) st, content(C))); mc::trace();
    if (dt != SLIP_MPZ) REQ(mpq_cmp_ui(C->scale, 1, 1) == 0, "%s: scale of the copy is not one", in.c_str());
    REQ(SLIP_matrix_check(C, o) == SLIP_OK, "%s: the copy does not pass SLIP_matrix_check", in.c_str());
    std::map<std::pair<int, int>, const Ent *> want; for (auto &t : s.e) want[{t.i, t.j}] = &t;
    auto cell = [&](int i, int j, int64_t p) {
        auto it = want.find({i, j}); static const Val zero{Q(0)};
        const Val &v = it == want.end() ? zero : it->second->v;
        std::string w = check_value(C, p, v, s.type, o); REQ(w.empty(), "%s: entry (%d,%d): %s", in.c_str(), i, j, w.c_str());
    };
    auto is_zero = [&](int64_t p) { switch (C->type) { case SLIP_MPZ: return mpz_sgn(C->x.mpz[p]) == 0; case SLIP_MPQ: return mpq_sgn(C->x.mpq[p]) == 0; case SLIP_MPFR: return (bool) mpfr_zero_p(C->x.mpfr[p]); case SLIP_INT64: return C->x.int64[p] == 0; default: return C->x.fp64[p] == 0; } };
    int64_t nnz = SLIP_matrix_nnz(C, o); bool anyz = false, allz = true; ref::Z g(0);
    auto look = [&](int64_t p) { if (is_zero(p)) anyz = true; else { allz = false; if (C->type == SLIP_MPZ) g = Z::gcd(g, Z(C->x.mpz[p])); } };
    if (dk == SLIP_DENSE) { for (int j = 0; j < s.n; j++) for (int i = 0; i < s.m; i++) { cell(i, j, i + (int64_t) j * s.m); look(i + (int64_t) j * s.m); } REQ(nnz == (int64_t) s.m * s.n, "%s: nnz is %lld", in.c_str(), (long long) nnz); }
    else {
        std::map<std::pair<int, int>, int> got;
        if (dk == SLIP_CSC) { for (int j = 0; j < s.n; j++) for (int64_t p = C->p[j]; p < C->p[j + 1]; p++) { cell((int) C->i[p], j, p); look(p); got[{(int) C->i[p], j}] = 1; } }
        else for (int64_t p = 0; p < C->nz; p++) { cell((int) C->i[p], (int) C->j[p], p); look(p); got[{(int) C->i[p], (int) C->j[p]}] = 1; }
        REQ(nnz == (int64_t) got.size(), "%s: nnz is %lld but there are %d entries", in.c_str(), (long long) nnz, (int) got.size());
        for (auto &t : s.e) if (!got.count({t.i, t.j})) {
            bool zero_ok = s.kind == SLIP_DENSE;    // a dense source has no pattern: only nonzeros are entries
            if (zero_ok) { // the converted value must be zero
                Q q = t.v.q; if (dt == SLIP_MPZ && (s.type == SLIP_FP64 || s.type == SLIP_MPFR)) q = expanded(q, s.type, o ? o->prec : 128, o ? o->round : MPFR_RNDN);
                else if (dt == SLIP_INT64) q = t.v.special ? Q(t.v.special == 1 || t.v.special == 4 ? 0 : 1) : Q(ref::round_z(q, s.type == SLIP_MPFR ? (o ? o->round : MPFR_RNDN) : MPFR_RNDZ), Z(1));
                else if (dt == SLIP_FP64 && !fits_double(q)) { static const Q tiny(4.94065645841246544e-324); if (q.abs() < tiny) q = Q(0); }
                zero_ok = q.sgn() == 0;
            }
            REQ(zero_ok, "%s: entry (%d,%d) is missing", in.c_str(), t.i, t.j);
        }
        for (auto &g2 : got) { bool in_src = want.count(g2.first); REQ(in_src, "%s: entry (%d,%d) was made up", in.c_str(), g2.first.first, g2.first.second); }
        if (s.kind == SLIP_DENSE) REQ(!anyz, "%s: a zero of the dense source became an entry", in.c_str());
    }
    if (dt == SLIP_MPZ && (s.type == SLIP_FP64 || s.type == SLIP_MPFR)) {
        if (allz) REQ(mpq_cmp_ui(C->scale, 1, 1) == 0, "%s: all entries are zero but the scale is not one", in.c_str());
        else REQ(g == Z(1), "%s: common factor %s left", in.c_str(), g.str().c_str());
    }
    mc::outcome((unsigned) (allz ? 0 : anyz ? 1 : 2));
    mfree(C); REQ(xa::live == l0, "%s: %lld block(s) leaked", in.c_str(), (long long) (xa::live - l0));
    src.clear();
}

// ------------------------------------------------------------------ alphabets
static const std::vector<Q> &table()
{
    static std::vector<Q> t; if (!t.empty()) return t;
    auto P = [](int k) { return Q(Z::pow(2, k), Z(1)); }; Q one(1);
    std::vector<Q> v = {Q(0), one, Q(2), Q(3), Q(6), Q(1, 2), Q(1, 3), Q(2, 3), Q(5, 2), Q(3, 2), Q(1, 10), Q(0.1), Q(1, 1024), Q(7, 5), Q(99, 100), Q(123456789), Q(999999999999L, 1000000000000UL),
        P(31), P(32), P(53) - one, P(53), P(53) + one, P(54) + Q(2), P(60) + one, P(62), P(63) - one, P(63), P(63) + one, P(64) + Q(5), P(63) - Q(1, 2), P(63) - Q(1024), P(63) + Q(2048), P(100) + one, P(200) + P(100) + one,
        Q(Z::pow(10, 17), Z(1)), Q(Z(1), Z::pow(10, 17)), Q(Z(3), Z::pow(10, 18)), Q(Z(1), Z::pow(2, 60)), Q(Z(1), Z::pow(2, 140)), Q(Z(1), Z::pow(2, 1074)), Q(1.7976931348623157e308), Q(2.2250738585072014e-308), P(1100), Q(Z(1), Z::pow(2, 1100)),
        Q(0.3), Q(1e-5), Q(3.14159265358979), Q(1e22), Q(1e23), Q(1.5e17) };
    for (auto &q : v) { t.push_back(q); if (q.sgn()) t.push_back(Q(0) - q); }
    return t;
}
static std::vector<Val> values_for(int type, long prec)
{
    std::vector<Val> r;
    for (auto &q : table()) switch (type) {
        case SLIP_MPZ: if (q.den() == Z(1)) r.push_back(Val{q}); break;
        case SLIP_MPQ: r.push_back(Val{q}); break;
        case SLIP_MPFR: if (ref::round_q(q, prec, MPFR_RNDN) == q) r.push_back(Val{q}); break;
        case SLIP_INT64: if (q.den() == Z(1) && !(q.num() < -Z::pow(2, 63)) && q.num() < Z::pow(2, 63)) r.push_back(Val{q}); break;
        case SLIP_FP64: if (fits_double(q)) r.push_back(Val{q}); break;
    }
    return r;
}
// small letters used for patterns; each representable in every type with the given scale
static Val letter(int type, int k, const Q &scale)
{
    static const Q half(1, 2);
    switch (type) {
        case SLIP_MPZ: { static const int z[6] = {6, -4, 3, 10, -15, 1}; return Val{Q(z[k % 6]) / scale}; }
        case SLIP_MPQ: { static const Q z[6] = {Q(6), Q(-4, 3), Q(1, 3), Q(10), Q(-15, 4), Q(7, 10)}; return Val{z[k % 6]}; }
        case SLIP_INT64: { static const int z[6] = {6, -4, 3, 10, -15, 1}; return Val{Q(z[k % 6])}; }
        default: { static const Q z[6] = {Q(6), Q(-4), Q(3, 2), Q(10), Q(-15, 4), Q(1, 2)}; return Val{z[k % 6]}; }
    }
}
struct Shape { int m, n; };
static void order_entries(Src &s, int ord)
{
    if (ord == 1) std::reverse(s.e.begin(), s.e.end());
    else if (ord == 2 && s.e.size() > 1) std::rotate(s.e.begin(), s.e.begin() + s.e.size() / 2, s.e.end());
}
// patterns x presentations x all 225 form pairs
static Src pat_src(const Shape &h, uint64_t cells, int ord, int sk, int stp, int sc, bool shallow, int slack, int seed)
{
    static const Q SC[4] = {Q(1), Q(2), Q(3, 7), Q(Z::pow(10, 17), Z(3))};
    Src s; s.m = h.m; s.n = h.n; s.kind = sk; s.type = stp; s.shallow = shallow; s.slack = slack; if (stp == SLIP_MPZ) s.scale = SC[sc % 4];
    for (int j = 0; j < h.n; j++) for (int i = 0; i < h.m; i++) { int c = (int) (cells % 3); cells /= 3; if (c == 0) continue; s.e.push_back(Ent{i, j, c == 1 ? letter(stp, seed + i * 2 + j * 3 + i * j, s.scale) : Val{Q(0)}}); }
    order_entries(s, ord); return s;
}
static std::vector<Shape> shapes(bool th)
{
    std::vector<Shape> v; for (int m = 0; m <= 2; m++) for (int n = 0; n <= 2; n++) v.push_back({m, n});
    v.push_back({1, 3}); v.push_back({3, 1}); v.push_back({0, 3}); v.push_back({3, 0}); if (th) { v.push_back({2, 3}); v.push_back({3, 2}); v.push_back({1, 4}); v.push_back({4, 1}); }
    return v;
}
static SLIP_options opts_of(int k) { SLIP_options o = defopt(); static const int pr[4] = {128, 53, 24, 600}; o.prec = pr[k % 4]; o.round = RND[k % 5]; return o; }

static Src wide_src(uint64_t i, int &dk, int &dt)
{
    static const Shape W[3] = {{70001, 1}, {1, 70001}, {261, 257}}; static const Q SC[3] = {Q(1), Q(2), Q(3, 7)};
    mc::Dec d(i); uint64_t f = d(225); Shape h = W[(f + f / 15 + d(3)) % 3]; dk = (int) (f % 3); dt = (int) (f / 3 % 5); Src s; s.m = h.m; s.n = h.n; s.kind = (int) (f / 15 % 3); s.type = (int) (f / 45); s.shallow = f % 2; if (s.type == SLIP_MPZ) s.scale = SC[f % 3];
    s.e.reserve((size_t) h.m * h.n); for (int j = 0; j < h.n; j++) for (int r = 0; r < h.m; r++) { int64_t c = r + (int64_t) j * h.m; s.e.push_back(Ent{r, j, c % 11 == 4 ? Val{Q(0)} : letter(s.type, (int) (c % 6), s.scale)}); }
    order_entries(s, (int) (f % 3)); return s;
}
// 70001 reals with a common factor broken (or not) by one entry near either end or around entry 65536
static Src wide_real(uint64_t i, int &r)
{
    static const int at[6] = {0, 65534, 65535, 65536, 70000, -1}; mc::Dec d(i); int stp = d(2) ? SLIP_MPFR : SLIP_FP64; r = (int) d(5); int k0 = at[d(6)]; Src s; s.type = stp; s.kind = (int) (i % 3); s.prec = 128; s.m = i % 2 ? 70001 : 1; s.n = i % 2 ? 1 : 70001;
    for (int k = 0; k <= 70000; k++) { double x = k == k0 ? 3.0 : k % 5 == 3 ? 0.0 : 6.0 * (1 + k % 4); s.e.push_back(s.m == 1 ? Ent{0, k, Val{Q(x)}} : Ent{k, 0, Val{Q(x)}}); } return s;
}
void mc::register_spaces(const std::string &prop, bool th)
{
    mc::outcome_name(0, "all entries zero or none"); mc::outcome_name(1, "some explicit zeros"); mc::outcome_name(2, "all entries nonzero");
    mc::assume("MPFR and GMP compute correctly; NaN and infinities are excluded except as sources for int64 targets (no other target type can hold them)");
    if (prop == "S07") {
        for (auto h : shapes(th)) {
            uint64_t pats = mc::ipow(3, h.m * h.n), n = pats * 225 * 2;
            auto get = [=](uint64_t i, int &dk, int &dt, int &ok) { mc::Dec d(i); uint64_t f = d(225), p = d(pats); int sh = (int) d(2); dk = (int) (f % 3); dt = (int) (f / 3 % 5); int sk = (int) (f / 15 % 3), stp = (int) (f / 45); ok = (int) ((p + f) % 6);
                return pat_src(h, p, (int) ((p + f / 15) % 3), sk, stp, (int) (p + sh) % 4, sh, (int) ((p + f) % 3), (int) (p % 7)); };
            mc::add(mc::fmt("forms-%dx%d", h.m, h.n), n, [=](uint64_t i) { int dk, dt, ok; Src s = get(i, dk, dt, ok); SLIP_options o = opts_of(ok); session_open(); check_copy(s, dk, dt, ok == 5 ? nullptr : &o); session_close(); },
                    [=](uint64_t i) { int dk, dt, ok; Src s = get(i, dk, dt, ok); return str(s) + mc::fmt(" -> %s %s", KN[dk], TN[dt]); });
        }
        // 3-by-3: every 0/1 pattern, sparse and dense, all forms with rotated presentation
        {
            uint64_t n = 512 * 225ull * (th ? 3 : 1);
            auto get = [=](uint64_t i, int &dk, int &dt) { mc::Dec d(i); uint64_t f = d(225), p = d(512); int ord = (int) d(3); dk = (int) (f % 3); dt = (int) (f / 3 % 5); uint64_t c = 0, w = 1; for (int b = 0; b < 9; b++, w *= 3) if (p >> b & 1) c += w; return pat_src({3, 3}, c, (int) ((ord + p) % 3), (int) (f / 15 % 3), (int) (f / 45), (int) p % 4, (p >> 2) & 1, (int) (p % 3), (int) (p % 7)); };
            mc::add("forms-3x3", n, [=](uint64_t i) { int dk, dt; Src s = get(i, dk, dt); SLIP_options o = defopt(); session_open(); check_copy(s, dk, dt, &o); session_close(); },
                    [=](uint64_t i) { int dk, dt; Src s = get(i, dk, dt); return str(s) + mc::fmt(" -> %s %s", KN[dk], TN[dt]); });
        }
        // larger shapes: every form pair, six pattern families, every presentation, owned and shallow
        {
            static const Shape L[] = {{40, 1}, {1, 40}, {17, 16}, {16, 17}, {33, 64}, {64, 33}, {65, 65}, {130, 3}, {3, 130}, {257, 2}};
            const uint64_t nl = th ? 10 : 6, n = nl * 225 * 6 * 3 * 2;
            auto get = [=](uint64_t i, int &dk, int &dt) { mc::Dec d(i); uint64_t f = d(225); int pat = (int) d(6), ord = (int) d(3); bool sh = d(2); Shape h = L[d(nl)]; dk = (int) (f % 3); dt = (int) (f / 3 % 5); Src s; s.m = h.m; s.n = h.n; s.kind = (int) (f / 15 % 3); s.type = (int) (f / 45); s.shallow = sh; s.slack = pat % 3; static const Q SC[3] = {Q(1), Q(2), Q(3, 7)}; if (s.type == SLIP_MPZ) s.scale = SC[(pat + ord) % 3];
                for (int j = 0; j < h.n; j++) for (int r = 0; r < h.m; r++) {
                    int64_t c = r + (int64_t) j * h.m; bool in = pat == 0 || (pat == 1 && c % 3 == 1) || (pat == 2 && c == (int64_t) h.m * h.n - 1) || (pat == 3 && (r == j || r == h.m - 1)) || (pat == 4 && j % 2 == 1) || (pat == 5 && (c * 7 + 3) % 5 < 2);
                    if (in) s.e.push_back(Ent{r, j, c % 11 == 4 ? Val{Q(0)} : letter(s.type, (int) (c % 6), s.scale)}); }
                order_entries(s, ord); return s; };
            mc::add("larger", n, [=](uint64_t i) { int dk, dt; Src s = get(i, dk, dt); SLIP_options o = opts_of((int) (i / 225 % 6)); session_open(); check_copy(s, dk, dt, &o); session_close(); },
                    [=](uint64_t i) { int dk, dt; Src s = get(i, dk, dt); std::string t = str(s); if (t.size() > 400) t = t.substr(0, 400) + " ..."; return t + mc::fmt(" (%d entries) -> %s %s", (int) s.e.size(), KN[dk], TN[dt]); });
        }
        // more rows, columns or entries than 16 bits count: every form pair
        mc::add("beyond-16-bits", 225ull * (th ? 3 : 1), [=](uint64_t i) { int dk, dt; Src s = wide_src(i, dk, dt); SLIP_options o = opts_of((int) (i % 5)); session_open(); check_copy(s, dk, dt, &o); session_close(); },
                [=](uint64_t i) { int dk, dt; Src s = wide_src(i, dk, dt); return mc::fmt("%s %s %d-by-%d with %d entries -> %s %s", KN[s.kind], TN[s.type], s.m, s.n, (int) s.e.size(), KN[dk], TN[dt]); });
        // every value of the table (and pairs), every source type, all targets, all roundings
        for (int stp = 0; stp < 5; stp++) {
            auto V = std::make_shared<std::vector<Val>>(values_for(stp, 128)); uint64_t nv = V->size(), n = nv * nv * 5;
            auto get = [=](uint64_t i, int &dt, int &r) { mc::Dec d(i); dt = (int) d(5); uint64_t a = d(nv), b = d(nv); r = (int) ((a + b) % 5); Src s; s.m = 2; s.n = 1; s.kind = (int) ((a + b) % 3); s.type = stp; static const Q sc[3] = {Q(1), Q(2), Q(9)};
                // the stored integers are the table values; the matrix is those divided by the scale
                if (stp == SLIP_MPZ) s.scale = sc[b % 3]; s.e.push_back(Ent{0, 0, Val{(*V)[a].q / s.scale}}); s.e.push_back(Ent{1, 0, Val{(*V)[b].q / s.scale}}); return s; };
            mc::add(mc::fmt("values-%s", TN[stp]), n, [=](uint64_t i) { int dt, r; Src s = get(i, dt, r); SLIP_options o = opts_of(r); o.round = RND[r]; session_open(); check_copy(s, (int) (i / 5 % 3), dt, &o); session_close(); },
                    [=](uint64_t i) { int dt, r; Src s = get(i, dt, r); return str(s) + mc::fmt(" -> %s %s", KN[i / 5 % 3], TN[dt]); });
        }
    }
    if (prop == "S08") {   // the same spaces in both tiers: cheap enough
        for (int stp : {(int) SLIP_FP64, (int) SLIP_MPFR}) {
            auto V = std::make_shared<std::vector<Val>>();
            for (double d : {0.0, 1.0, -1.0, 0.5, -0.5, 0.25, 0.1, -0.1, 0.3, 0.125, 2.0, -3.0, 6.0, 1e-5, 1e-17, -1e-17, 5e-18, 6e-18, 1e-18, 1e17, 12345.6789, -99.99, 1e22, 9007199254740993.0, 1e300, 4.9e-324, 0.2, 0.7})
                V->push_back(Val{Q(d)});
            if (stp == SLIP_MPFR) { V->push_back(Val{Q(Z(1), Z::pow(2, 200))}); V->push_back(Val{Q(Z(3), Z::pow(2, 129))}); V->push_back(Val{Q(Z(5), Z::pow(2, 299))}); V->push_back(Val{Q(Z::pow(2, 53) + Z(1), Z(1))}); }
            uint64_t nv = V->size();
            for (int len = 0; len <= 3; len++) {
                uint64_t reps = 25, n = mc::ipow(nv, len) * reps;
                auto get = [=](uint64_t i, int &dk, int &ok) { mc::Dec d(i); uint64_t h = i; Src s; s.m = len; s.n = 1; s.type = stp; s.prec = 256; for (int k = 0; k < len; k++) s.e.push_back(Ent{k, 0, (*V)[d(nv)]}); ok = (int) d(reps);  dk = (int) ((h + h / 15) % 3); s.kind = (int) (h / 3 % 3); if (h / 7 % 2) { std::swap(s.m, s.n); for (auto &e : s.e) std::swap(e.i, e.j); } return s; };
                mc::add(mc::fmt("%s-arrays-%d", TN[stp], len), n, [=](uint64_t i) { int dk, ok; Src s = get(i, dk, ok); SLIP_options o = defopt(); static const int pr[5] = {128, 53, 300, 2, 1024}; o.prec = pr[ok % 5]; o.round = RND[ok / 5]; session_open(); check_copy(s, dk, SLIP_MPZ, &o); session_close(); },
                        [=](uint64_t i) { int dk, ok; Src s = get(i, dk, ok); return str(s) + mc::fmt(" -> %s MPZ options %d", KN[dk], ok); });
            }
        }
        // long arrays: the common factor is that of the nonzero entries, wherever they are
        {
            static const int LN[] = {4, 5, 7, 16, 33, 64, 100}; const uint64_t n = 7ull * 9 * 9 * 5 * 2;
            auto get = [=](uint64_t i, int &r) { mc::Dec d(i); int len = LN[d(7)], fam = (int) d(9), at = (int) d(9); r = (int) d(5); int stp = d(2) ? SLIP_MPFR : SLIP_FP64; Src s; s.type = stp; s.kind = (int) (i % 3); s.prec = 256;
                if (i % 2) { s.m = len; s.n = 1; } else { s.m = 1; s.n = len; }
                int k0 = at * (len - 1) / 8;
                static const double base[9] = {0.0, 6.0, 0.5, -12.0, 0.1, 1e10, 1e-5, 3.0, 1024.0}, odd[9] = {3.0, 4.0, 0.25, -0.3, 0.0, 1.0, 1e5, 9.0, 1e-17};
                for (int k = 0; k < len; k++) { double x = k == k0 ? odd[(fam + at) % 9] : k % 5 == 3 ? 0.0 : base[fam] * (1 + k % 4); s.e.push_back(s.m == 1 ? Ent{0, k, Val{Q(x)}} : Ent{k, 0, Val{Q(x)}}); } return s; };
            mc::add("long-arrays", n, [=](uint64_t i) { int r; Src s = get(i, r); SLIP_options o = defopt(); o.round = RND[r]; session_open(); check_copy(s, (int) (i / 3 % 3), SLIP_MPZ, &o); session_close(); },
                    [=](uint64_t i) { int r; Src s = get(i, r); std::string t = str(s); if (t.size() > 500) t = t.substr(0, 500) + " ..."; return t + mc::fmt(" -> %s MPZ", KN[i / 3 % 3]); });
        }
        mc::add("beyond-16-bits", 2ull * 5 * 6, [=](uint64_t i) { int r; Src s = wide_real(i, r); SLIP_options o = defopt(); o.round = RND[r]; session_open(); check_copy(s, (int) (i / 3 % 3), SLIP_MPZ, &o); session_close(); },
                [=](uint64_t i) { int r; Src s = wide_real(i, r); return mc::fmt("%s %s %d-by-%d -> MPZ, odd entry at place %d", KN[s.kind], TN[s.type], s.m, s.n, (int) (i / 10)); });
        // doubles with a decimal meaning: k * 10^-e is recovered to the documented precision, with and without a companion
        mc::add("decimals", 400ull * 19 * 2 * 2, [=](uint64_t i) { mc::Dec d(i); int k = (int) d(400), e = (int) d(19); bool neg = d(2), comp = d(2);
                    double x = (double) k; char buf[64]; snprintf(buf, sizeof buf, "%s%de-%d", neg ? "-" : "", k * 7 + 1, e); x = strtod(buf, nullptr);
                    Src s; s.m = comp ? 2 : 1; s.n = 1; s.type = SLIP_FP64; s.kind = (int) (i % 3); s.e.push_back(Ent{0, 0, Val{Q(x)}}); if (comp) s.e.push_back(Ent{1, 0, Val{Q(0)}});
                    SLIP_options o = defopt(); o.round = RND[k % 5]; session_open(); check_copy(s, (int) (i / 3 % 3), SLIP_MPZ, &o); session_close(); },
                [=](uint64_t i) { mc::Dec d(i); int k = (int) d(400), e = (int) d(19); return mc::fmt("%s%de-%d to MPZ", d(2) ? "-" : "", k * 7 + 1, e); });
        // integers in floating point keep their value at every magnitude
        mc::add("powers", 2 * 330ull * 3 * 2, [=](uint64_t i) { mc::Dec d(i); int stp = d(2) ? SLIP_MPFR : SLIP_FP64; int k = (int) d(330); int off = (int) d(3) - 1; bool neg = d(2); Q q = k < 300 ? Q(Z::pow(2, k), Z(1)) : Q(Z(1), Z::pow(2, k - 300)); q = q + Q(off); if (neg) q = Q(0) - q; if (!fits_double(q)) { ref::Mode m; q = Q(mpq_get_d(q.v)); }
                    Src s; s.m = 1; s.n = 2; s.type = stp; s.kind = (int) (i % 3); s.e.push_back(Ent{0, 0, Val{q}}); s.e.push_back(Ent{0, 1, Val{q + q}}); SLIP_options o = defopt(); o.round = RND[k % 5]; session_open(); check_copy(s, (int) (i / 3 % 3), SLIP_MPZ, &o); session_close(); },
                [=](uint64_t i) { return mc::fmt("powers %llu", (unsigned long long) i); });
    }
    if (prop == "S09") {
        // every exponent, both signs, extreme and middle mantissas: FP64 and MPFR sources
        mc::add("double-lattice", 2047ull, [=](uint64_t i) {
                session_open();
                Src s; s.n = 1; s.type = SLIP_FP64; s.kind = (int) (i % 3);
                for (int g = 0; g < 2; g++) for (uint64_t m : {0ull, 1ull, 0xFFFFFFFFFFFFFull, 0x8000000000000ull, 0x7FFFFFFFFFFFFull, 0x8000000000001ull, 0x5555555555555ull, 0xAAAAAAAAAAAAAull}) { uint64_t b = ((uint64_t) g << 63) | (i << 52) | m; double x; memcpy(&x, &b, 8); s.e.push_back(Ent{(int) s.e.size(), 0, x == 0 ? Val{Q(0), std::signbit(x) ? 4 : 0} : Val{Q(x)}}); }
                s.m = (int) s.e.size(); SLIP_options o = defopt(); check_copy(s, SLIP_DENSE, SLIP_INT64, &o);
                s.type = SLIP_MPFR; s.prec = 128; for (int r = 0; r < 5; r++) { o.round = RND[r]; o.prec = 128; check_copy(s, (int) (r % 3), SLIP_INT64, &o); }
                session_close(); }, [=](uint64_t i) { return mc::fmt("16 doubles of biased exponent %llu, as FP64 and as MPFR in five roundings", (unsigned long long) i); });
        // more entries than 16 bits count, from every real or exact type, values outside the range at several places
        mc::add("beyond-16-bits", 4ull * 5 * 3, [=](uint64_t i) { mc::Dec d(i); int t = (int) d(4), r = (int) d(5), w = (int) d(3); static const int ty[4] = {SLIP_MPZ, SLIP_MPQ, SLIP_MPFR, SLIP_FP64}; static const Q big(Z::pow(2, 70), Z(1)), half(1, 2);
                Src s; s.type = ty[t]; s.kind = (int) (i % 3); s.prec = 128; s.m = w == 0 ? 70001 : w == 1 ? 1 : 261; s.n = w == 0 ? 1 : w == 1 ? 70001 : 257;
                for (int j = 0; j < s.n; j++) for (int k = 0; k < s.m; k++) { int c = k + j * s.m; bool edge = c == 0 || c == 65534 || c == 65535 || c == 65536 || c == s.m * s.n - 1; Q q = edge ? (c % 2 ? big : Q(0) - big) : s.type == SLIP_MPZ ? Q(c % 9 - 4) : Q(c % 9 - 4) + half; if (!(q.sgn() == 0)) s.e.push_back(Ent{k, j, Val{q}}); }
                SLIP_options o = defopt(); o.round = RND[r]; session_open(); check_copy(s, (int) (i / 3 % 3), SLIP_INT64, &o); session_close(); },
                [=](uint64_t i) { return mc::fmt("case %llu of more than 65536 entries to INT64", (unsigned long long) i); });
        mc::add("specials", 3ull * 3 * 2 * 16, [=](uint64_t i) { mc::Dec d(i); int sk = (int) d(3), dk = (int) d(3), stp = d(2) ? SLIP_MPFR : SLIP_FP64; uint64_t w = d(16); Src s; s.m = 1; s.n = 2; s.kind = sk; s.type = stp;
                s.e.push_back(Ent{0, 0, Val{Q(0), (int) (1 + w % 4)}}); s.e.push_back(Ent{0, 1, Val{Q(0), (int) (1 + w / 4)}}); for (int r = 0; r < 5; r++) { SLIP_options o = defopt(); o.round = RND[r]; session_open(); check_copy(s, dk, SLIP_INT64, &o); session_close(); } },
                [=](uint64_t i) { return mc::fmt("NaN, infinities and -0: %llu", (unsigned long long) i); });
        // boundary integers and fractions around every power of two, in every exact type
        mc::add("boundaries", 72ull * 15 * 2 * 3 * (th ? 6 : 3), [=](uint64_t i) { mc::Dec d(i); int k = (int) d(72), off = (int) d(15), neg = (int) d(2), t = (int) d(3), sc = (int) d(6);
                static const Q offs[15] = {Q(0), Q(1), Q(-1), Q(1, 2), Q(-1, 2), Q(1, 3), Q(-1, 3), Q(3, 2), Q(-3, 2), Q(2), Q(-2), Q(1, 1000000007), Q(-1, 1000000007), Q(999, 1000), Q(-999, 1000)};
                static const Q scs[6] = {Q(1), Q(2), Q(3), Q(7, 5), Q(Z::pow(2, 64), Z(1)), Q(Z(1), Z::pow(10, 9))};
                Q q = Q(Z::pow(2, k), Z(1)) + offs[off]; if (neg) q = Q(0) - q; Src s; s.m = 2; s.n = 1; s.kind = (int) (i % 3); s.type = t == 0 ? SLIP_MPQ : t == 1 ? SLIP_MPZ : SLIP_MPFR;
                if (s.type == SLIP_MPZ) { s.scale = scs[sc]; q = Q(ref::round_z(q * s.scale, MPFR_RNDN), Z(1)) / s.scale; }
                if (s.type == SLIP_MPFR) { s.prec = 128; q = ref::round_q(q, 128, MPFR_RNDN); }
                s.e.push_back(Ent{0, 0, Val{q}}); s.e.push_back(Ent{1, 0, Val{Q(0) - q}});
                SLIP_options o = defopt(); o.round = RND[(k + sc) % 5]; session_open(); check_copy(s, (int) (i / 3 % 3), SLIP_INT64, &o); session_close(); },
                [=](uint64_t i) { mc::Dec d(i); int k = (int) d(72), off = (int) d(15), neg = (int) d(2), t = (int) d(3); return mc::fmt("%s(2^%d + offset %d) type %d scale %d to INT64", neg ? "-" : "", k, off, t, (int) d(6)); });
    }
}
