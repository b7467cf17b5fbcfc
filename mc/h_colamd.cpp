// h_colamd: C01-C06, COLAMD and SYMAMD through colamd.h
#include "slipx.h"
#include "graphs.h"
#include <map>
extern "C" {
#include "colamd.h"
}
typedef SuiteSparse_long lng;
struct K32 {
    typedef int T; static const char *nm() { return "int"; }
    static size_t rec(T a, T b, T c) { return colamd_recommended(a, b, c); } static void def(double *k) { colamd_set_defaults(k); }
    static int col(T m, T n, T al, T *A, T *p, double *k, T *s) { return colamd(m, n, al, A, p, k, s); }
    static int sym(T n, T *A, T *p, T *P, double *k, T *s, void *(*al)(size_t, size_t), void (*fr)(void *)) { return symamd(n, A, p, P, k, s, al, fr); }
    static void rcol(T *s) { colamd_report(s); } static void rsym(T *s) { symamd_report(s); }
};
struct K64 {
    typedef lng T; static const char *nm() { return "long"; }
    static size_t rec(T a, T b, T c) { return colamd_l_recommended(a, b, c); } static void def(double *k) { colamd_l_set_defaults(k); }
    static int col(T m, T n, T al, T *A, T *p, double *k, T *s) { return (int) colamd_l(m, n, al, A, p, k, s); }
    static int sym(T n, T *A, T *p, T *P, double *k, T *s, void *(*al)(size_t, size_t), void (*fr)(void *)) { return (int) symamd_l(n, A, p, P, k, s, al, fr); }
    static void rcol(T *s) { colamd_l_report(s); } static void rsym(T *s) { symamd_l_report(s); }
};
static std::string vstr(const std::vector<int> &v) { std::string s; for (int x : v) s += mc::fmt("%s%d", s.empty() ? "" : " ", x); return s; }
static bool is_perm(const std::vector<int> &P) { std::vector<char> s(P.size(), 0); for (int x : P) { if (x < 0 || x >= (int) P.size() || s[x]) return false; s[x] = 1; } return true; }
template <class T> struct Arr { T *a; size_t n; Arr(size_t n, int byte) : n(n) { a = (T *) malloc(n ? n * sizeof(T) : 1); memset(a, byte, n * sizeof(T)); } ~Arr() { free(a); } Arr(const Arr &) = delete; };
struct Kn { double row = 10, col = 10, aggr = 1; bool null = false; };
static std::string kstr(const Kn &k) { return k.null ? std::string("knobs NULL") : mc::fmt("dense row %g, dense col %g, aggressive %g", k.row, k.col, k.aggr); }
struct Raw { int m, n; std::vector<int> p, a; };
static Raw flat(const Pat &q) { Raw r{q.m, q.n, {0}, {}}; for (auto &c : q.col) { r.a.insert(r.a.end(), c.begin(), c.end()); r.p.push_back((int) r.a.size()); } return r; }
static long need(const Raw &r) { return 2L * r.a.size() + 6L * (r.n + 1) + 4L * (r.m + 1) + r.n; }     // the documented minimum
struct Res { int ok; std::vector<int> P; std::vector<long> st; long count = 0; };
template <class K> Res col(const Raw &r, long alen, const Kn &k, int fill = 0xCD)
{
    typedef typename K::T T; Arr<T> A(alen, fill), p(r.n + 1, fill); for (size_t i = 0; i < r.a.size(); i++) A.a[i] = r.a[i]; for (int j = 0; j <= r.n; j++) p.a[j] = r.p[j];
    double kn[COLAMD_KNOBS], k0[COLAMD_KNOBS]; K::def(kn); kn[COLAMD_DENSE_ROW] = k.row; kn[COLAMD_DENSE_COL] = k.col; kn[COLAMD_AGGRESSIVE] = k.aggr; memcpy(k0, kn, sizeof kn);
    T st[COLAMD_STATS]; memset(st, fill, sizeof st); Res o; o.ok = K::col(r.m, r.n, (T) alen, A.a, p.a, k.null ? nullptr : kn, st);
    REQ(!memcmp(kn, k0, sizeof kn), "[%s] the knobs were changed", K::nm()); uint64_t h = o.ok;
    for (int j = 0; j < r.n; j++) { o.P.push_back(p.a[j] < -9 || p.a[j] > 100000000 ? -9 : (int) p.a[j]); if (o.ok) h = mc::mix(h, o.P.back()); }
    for (T x : st) { o.st.push_back((long) x); h = mc::mix(h, x); } mc::step(h); return o;
}
static std::map<void *, int> *dummy;
namespace sa { // the allocator handed to symamd
static uint64_t n, failat, live; static long bad; static std::map<void *, size_t> blk;
static void *alloc(size_t a, size_t b) { if (failat && ++n >= failat) return nullptr; void *p = calloc(a ? a : 1, b ? b : 1); blk[p] = a * b; live++; return p; }
static void *alloc_once(size_t a, size_t b) { if (failat && ++n == failat) return nullptr; void *p = calloc(a ? a : 1, b ? b : 1); blk[p] = a * b; live++; return p; }
static void release(void *p) { auto it = blk.find(p); if (it == blk.end()) { bad++; return; } blk.erase(it); live--; free(p); }
static void reset(uint64_t f) { n = 0; failat = f; live = 0; bad = 0; for (auto &b : blk) free(b.first); blk.clear(); }
}
template <class K> Res sym(const Raw &r, const Kn &k, uint64_t failat = 0, bool once = false, int fill = 0xCD)
{
    typedef typename K::T T; Arr<T> A(r.a.size(), fill), p(r.n + 1, fill), P(r.n + 1, fill); for (size_t i = 0; i < r.a.size(); i++) A.a[i] = r.a[i]; for (int j = 0; j <= r.n; j++) p.a[j] = r.p[j];
    double kn[COLAMD_KNOBS], k0[COLAMD_KNOBS]; K::def(kn); kn[COLAMD_DENSE_ROW] = k.row; kn[COLAMD_DENSE_COL] = k.col; kn[COLAMD_AGGRESSIVE] = k.aggr; memcpy(k0, kn, sizeof kn);
    T st[COLAMD_STATS]; memset(st, fill, sizeof st); Res o; sa::reset(failat); use_tracked(); uint64_t req = xa::requests;
    o.ok = K::sym(r.n, A.a, p.a, P.a, k.null ? nullptr : kn, st, once ? sa::alloc_once : sa::alloc, sa::release);
    REQ(xa::requests == req, "[%s] symamd used another allocator than the one it was given", K::nm());
    REQ(sa::bad == 0, "[%s] symamd released a block it does not own", K::nm()); REQ(sa::live == 0, "[%s] symamd kept %llu block(s)", K::nm(), (unsigned long long) sa::live);
    REQ(!memcmp(kn, k0, sizeof kn), "[%s] the knobs were changed", K::nm()); for (size_t i = 0; i < r.a.size(); i++) REQ(A.a[i] == r.a[i], "[%s] A was changed", K::nm()); for (int j = 0; j <= r.n; j++) REQ(p.a[j] == r.p[j], "[%s] p was changed", K::nm());
    uint64_t h = o.ok + 7; for (int j = 0; j < r.n; j++) { o.P.push_back(P.a[j] < -9 || P.a[j] > 100000000 ? -9 : (int) P.a[j]); if (o.ok) h = mc::mix(h, o.P.back()); }
    for (T x : st) { o.st.push_back((long) x); h = mc::mix(h, x); } mc::step(h); o.count = (long) sa::n; return o;
}
static const double INF = HUGE_VAL;
static std::vector<Kn> knobs(bool big)
{
    std::vector<Kn> v; std::vector<double> d = big ? std::vector<double>{10, -1, 0, 1, 2.5, 3.7, 4.2, 1e10} : std::vector<double>{10, -1, 0};
    for (double x : d) for (double y : big ? d : std::vector<double>{10, -1}) for (double a : {1.0, 0.0}) { if (big && a == 0 && x != y) continue; Kn k; k.row = x; k.col = y; k.aggr = a; v.push_back(k); }
    Kn k; k.null = true; v.push_back(k); if (big) { k.null = false; k.row = k.col = 1e300; v.push_back(k); k.row = k.col = INF; v.push_back(k); } return v;
}
// how a pattern departs from sorted columns without repetitions: the documented notice
struct Jum { long count = 0, column = -1, row = -1; };
static Jum jumble(const Raw &r)
{
    Jum q; for (int j = 0; j < r.n; j++) { int last = -1; std::set<int> seen; for (int p = r.p[j]; p < r.p[j + 1]; p++) { int i = r.a[p]; if (i <= last || seen.count(i)) { q.count++; q.column = j; q.row = i; } seen.insert(i); last = i; } } return q;
}
static void req_status(const char *ty, const Res &o, const Raw &r, const char *what)
{
    Jum q = jumble(r); REQ(o.ok == 1, "[%s, %s] returned %d, status %ld", ty, what, o.ok, o.st[COLAMD_STATUS]);
    if (q.count == 0) REQ(o.st[COLAMD_STATUS] == COLAMD_OK, "[%s, %s] status %ld for a sorted pattern without repetitions", ty, what, o.st[COLAMD_STATUS]);
    else REQ(o.st[COLAMD_STATUS] == COLAMD_OK_BUT_JUMBLED && o.st[4] == q.column && o.st[5] == q.row && o.st[6] == q.count, "[%s, %s] status %ld, column %ld, row %ld, count %ld; expected 1, %ld, %ld, %ld", ty, what, o.st[3], o.st[4], o.st[5], o.st[6], q.column, q.row, q.count);
    mc::outcome(q.count ? 1 : 0);
}
// ------------------------------------------------------------------ C01
template <class K> void c01_type(const Pat &q, bool allen)
{
    Raw r = flat(q); long mn = need(r), nz = r.a.size(); bool big = std::max(q.m, q.n) > 16; Raw c = flat(q.clean());
    for (auto &k : knobs(big)) {
        std::vector<int> base; std::vector<long> ex; for (long e = 0; e <= (allen ? nz + q.n + 2 : 3); e++) ex.push_back(e); for (long e : {nz / 10, nz / 5, nz, 3 * nz + 50}) ex.push_back(e);
        for (long e : ex) {
            Res o = col<K>(r, mn + e, k, e == 0 ? 0x00 : e == 1 ? 0xFF : 0xCD); std::string w = kstr(k) + mc::fmt(", Alen = minimum + %ld", e); mc::trace();
            req_status(K::nm(), o, r, w.c_str()); REQ(is_perm(o.P), "[%s, %s] not a permutation: %s", K::nm(), w.c_str(), vstr(o.P).c_str()); if (o.st[2] > 0) mc::outcome(2);
            if (base.empty()) base = o.P; REQ(o.P == base, "[%s, %s] the ordering depends on the workspace: %s and %s", K::nm(), w.c_str(), vstr(o.P).c_str(), vstr(base).c_str());
            if (!allen && !k.null && k.row != 10) break;
        }
        if (!q.sorted()) { Res o = col<K>(c, need(c), k); REQ(o.P == base, "[%s, %s] unsorted or repeated entries change the ordering: %s instead of %s", K::nm(), kstr(k).c_str(), vstr(base).c_str(), vstr(o.P).c_str()); }
    }
}
static void c01(const Pat &q) { c01_type<K32>(q, false); c01_type<K64>(q, false); }
static void c01_all(const Pat &q) { c01_type<K32>(q, true); c01_type<K64>(q, true); }
// ------------------------------------------------------------------ C02
static Pat lower(const Pat &q) { Pat r(q.n, q.n); Pat c = q.clean(); for (int j = 0; j < q.n; j++) for (int i : c.col[j]) if (i > j) r.col[j].push_back(i); return r; }
template <class K> void c02_type(const Pat &q)
{
    Raw r = flat(q), lo = flat(lower(q)); bool big = q.n > 16;
    for (auto &k : knobs(big)) {
        if (k.col != 10 && k.col != k.row) continue; std::string ks = kstr(k);
        Res o = sym<K>(r, k); mc::trace(); req_status(K::nm(), o, r, ks.c_str()); REQ(is_perm(o.P), "[%s, %s] not a permutation: %s", K::nm(), ks.c_str(), vstr(o.P).c_str());
        Res l = sym<K>(lo, k, 0, false, 0); bool same = true; for (int j = 0; j < q.n; j++) { std::vector<int> a; std::set<int> s; for (int i : q.col[j]) if (i > j && s.insert(i).second) a.push_back(i); if (!std::is_sorted(a.begin(), a.end())) same = false; }
        if (same) REQ(l.P == o.P, "[%s, %s] entries on or above the diagonal, or repetitions, change the ordering: %s instead of %s", K::nm(), ks.c_str(), vstr(o.P).c_str(), vstr(l.P).c_str());
        if (same) for (int t : {0, 1, 2}) REQ(o.st[t] == l.st[t], "[%s, %s] entries on or above the diagonal, or repetitions, change stats[%d]: %ld instead of %ld", K::nm(), ks.c_str(), t, o.st[t], l.st[t]);
    }
    Kn k; for (int once = 0; once < 2; once++) for (uint64_t f = 1; ; f++) {
        Res o = sym<K>(r, k, f, once); mc::trace(); if ((uint64_t) o.count < f) { REQ(o.ok, "[%s] refused although nothing failed", K::nm()); break; }
        REQ(!o.ok && o.st[3] == COLAMD_ERROR_out_of_memory, "[%s, allocation %llu fails] returned %d, status %ld", K::nm(), (unsigned long long) f, o.ok, o.st[3]); mc::outcome(3); REQ(f < 20, "more than 20 allocations");
    }
}
static void c02(const Pat &q) { c02_type<K32>(q); c02_type<K64>(q); }
// ------------------------------------------------------------------ C03
struct Diag { long st, a, b, c; int parts; };
static std::vector<Diag> defects(bool issym, long m, long n, long alen, bool hasA, bool hasp, const std::vector<int> &p, const std::vector<int> &a)
{
    std::vector<Diag> d; if (!hasA) d.push_back({-1, 0, 0, 0, 0}); if (!hasp) d.push_back({-2, 0, 0, 0, 0}); if (!issym && m < 0) d.push_back({-3, m, 0, 0, 1}); if (n < 0) d.push_back({-4, n, 0, 0, 1});
    if (n < 0 || !hasp) return d; if (p[n] < 0) d.push_back({-5, p[n], 0, 0, 1}); if (p[0] != 0) d.push_back({-6, p[0], 0, 0, 1});
    if (m < 0) return d; long nd = 2L * p[n] + 6 * (n + 1) + 4 * (m + 1) + n; if (!issym && p[n] >= 0 && alen < nd) d.push_back({-7, nd, alen, 0, 2});
    for (int j = 0; j < n; j++) if (p[j + 1] < p[j]) d.push_back({-8, j, p[j + 1] - p[j], 0, 2});
    for (int j = 0; j < n; j++) for (int k = std::max(0, p[j]); k < p[j + 1] && k < (int) a.size(); k++) if (hasA && (a[k] < 0 || a[k] >= m)) d.push_back({-9, j, a[k], m, 3});
    return d;
}
// the array A has exactly alen elements (colamd) or p[n] elements (symamd)
template <class K> void c03_call(bool issym, int m, int n, long alen, bool hasA, bool hasp, const std::vector<int> &vp, const std::vector<int> &va)
{
    typedef typename K::T T; if (issym) alen = (long) va.size(); Arr<T> A(alen > 0 ? alen : 0, 0x2B), p(vp.size(), 0), P(n > 0 ? n + 1 : 1, 0x2B); for (size_t i = 0; i < va.size() && (long) i < alen; i++) A.a[i] = va[i]; for (size_t j = 0; j < vp.size(); j++) p.a[j] = vp[j];
    T st[COLAMD_STATS]; memset(st, 0x2B, sizeof st); int ok; const char *who = issym ? "symamd" : "colamd"; std::vector<Diag> d = defects(issym, issym ? n : m, n, alen, hasA, hasp, vp, va);
    if (issym) { sa::reset(0); ok = K::sym(n, hasA ? A.a : nullptr, hasp ? p.a : nullptr, P.a, nullptr, st, sa::alloc, sa::release); REQ(sa::live == 0 && sa::bad == 0, "[%s, %s] memory not released", K::nm(), who); }
    else ok = K::col(m, n, (T) alen, hasA ? A.a : nullptr, hasp ? p.a : nullptr, nullptr, st);
    mc::step(mc::mix(mc::mix(ok, st[3]), mc::mix(st[4], st[5]))); mc::trace(); std::string w = mc::fmt("%s, %s, m=%d n=%d Alen=%ld%s%s p=[%s] A=[%s]", K::nm(), who, m, n, alen, hasA ? "" : " A NULL", hasp ? "" : " p NULL", vstr(vp).c_str(), vstr(va).c_str());
    if (d.empty()) {
        Raw r{m, n, vp, va}; Jum q = jumble(r); REQ(ok == 1, "[%s] refused a valid input with status %ld", w.c_str(), (long) st[3]); mc::outcome(q.count ? 1 : 0);
        REQ(st[3] == (q.count ? 1 : 0), "[%s] status %ld, expected %d", w.c_str(), (long) st[3], q.count ? 1 : 0); if (q.count) REQ(st[4] == q.column && st[5] == q.row && st[6] == q.count, "[%s] column %ld, row %ld, count %ld; expected %ld %ld %ld", w.c_str(), (long) st[4], (long) st[5], (long) st[6], q.column, q.row, q.count);
        std::vector<int> o; for (int j = 0; j < n; j++) o.push_back((int) (issym ? P.a[j] : p.a[j])); REQ(is_perm(o), "[%s] not a permutation: %s", w.c_str(), vstr(o).c_str());
    } else {
        mc::outcome(4); REQ(ok == 0, "[%s] a defective input was accepted", w.c_str()); bool hit = false;
        for (auto &x : d) hit = hit || (st[3] == x.st && (x.parts < 1 || st[4] == x.a) && (x.parts < 2 || st[5] == x.b) && (x.parts < 3 || st[6] == x.c));
        REQ(hit, "[%s] refused with status %ld (%ld, %ld, %ld), which describes no defect of the input; the first is %ld (%ld, %ld, %ld)", w.c_str(), (long) st[3], (long) st[4], (long) st[5], (long) st[6], d[0].st, d[0].a, d[0].b, d[0].c);
    }
}
static void c03_input(int m, int n, const std::vector<int> &p, const std::vector<int> &a)
{
    long full = 2L * std::max(0, p[n]) + 6 * (n + 1) + 4 * (m + 1) + n;
    for (long al : {full, full - 1}) { c03_call<K32>(false, m, n, al, true, true, p, a); c03_call<K64>(false, m, n, al, true, true, p, a); }
    if (m == n) { c03_call<K32>(true, n, n, 0, true, true, p, a); c03_call<K64>(true, n, n, 0, true, true, p, a); }
}
static bool raw_decode(int m, int n, int top, uint64_t k, std::vector<int> &ap, std::vector<int> &ai, uint64_t per)
{
    mc::Dec d(k); uint64_t e = d(per); ap.resize(n + 1); for (int j = 0; j <= n; j++) ap[j] = (int) d(top + 2) - 1;
    int nz = std::max(ap[n], 0); if (e >= mc::ipow(m + 2, nz)) return false; mc::Dec f(e); ai.resize(nz); for (int &x : ai) x = (int) f(m + 2) - 1; return true;
}
static void c03_raw(int m, int n, int top)
{
    uint64_t per = mc::ipow(m + 2, top); mc::add(mc::fmt("raw-%dx%d", m, n), per * mc::ipow(top + 2, n + 1), [=](uint64_t k) { std::vector<int> p, a; if (!raw_decode(m, n, top, k, p, a, per)) return; c03_input(m, n, p, a); },
        [=](uint64_t k) { std::vector<int> p, a; if (!raw_decode(m, n, top, k, p, a, per)) return std::string("(no such array)"); return mc::fmt("%d-by-%d, p=[%s] A=[%s]", m, n, vstr(p).c_str(), vstr(a).c_str()); });
}
static void c03_single(const Pat &q)
{
    Raw r = flat(q); int m = q.m, n = q.n; c03_input(m, n, r.p, r.a); long full = need(r);
    for (size_t k = 0; k < r.a.size(); k++) for (int v : {-1, m, m + 1, -2147483647 - 1, 2147483647}) { auto b = r.a; b[k] = v; c03_input(m, n, r.p, b); }
    for (size_t k = 0; k + 1 < r.a.size(); k++) { auto b = r.a; std::swap(b[k], b[k + 1]); c03_input(m, n, r.p, b); b = r.a; b[k] = b[k + 1]; c03_input(m, n, r.p, b); }
    for (int j = 0; j < n; j++) for (int v : {-1, (int) r.a.size() + 1, r.p[j] + 1, r.p[j] - 1, 1000000000}) { auto b = r.p; b[j] = v; c03_input(m, n, b, r.a); }
    for (long al = -3; al < full; al += al < 3 || al > full - 4 ? 1 : full / 7 + 1) { c03_call<K32>(false, m, n, al, true, true, r.p, r.a); c03_call<K64>(false, m, n, al, true, true, r.p, r.a); }
}
template <class K> void c03_null_type(uint64_t k)
{
    typedef typename K::T T; mc::Dec d(k); bool hA = d(2), hp = d(2), hs = d(2), issym = d(2); int m = (int) d(4) - 2, n = (int) d(4) - 2; if (issym) m = n; std::vector<int> p(std::max(n, 0) + 1, 0);
    long full = 6L * (std::max(n, 0) + 1) + 4L * (std::max(m, 0) + 1) + std::max(n, 0);
    if (hs) { c03_call<K>(issym, m, n, full, hA, hp, p, {}); return; }
    Arr<T> A(full, 0), pp(p.size(), 0), P(p.size(), 0); int ok; if (issym) { sa::reset(0); ok = K::sym(n, hA ? A.a : nullptr, hp ? pp.a : nullptr, P.a, nullptr, nullptr, sa::alloc, sa::release); REQ(sa::live == 0, "memory not released"); } else ok = K::col(m, n, full, hA ? A.a : nullptr, hp ? pp.a : nullptr, nullptr, nullptr);
    REQ(ok == 0, "[%s] accepted without stats", K::nm()); mc::step(ok); mc::trace(); mc::outcome(4);
}
// ------------------------------------------------------------------ C04
template <class K> void c04_triple(long nz, long m, long n, long maxint)
{
    size_t got = K::rec((typename K::T) nz, (typename K::T) m, (typename K::T) n); mc::step(got); mc::trace(); mc::outcome(got ? 5 : 6);
    if (nz < 0 || m < 0 || n < 0) { REQ(got == 0, "[%s] recommended(%ld, %ld, %ld) is %zu for a negative size", K::nm(), nz, m, n, got); return; }
    __int128 z = nz, mm = m, nn = n, mn = 2 * z + 6 * (nn + 1) + 4 * (mm + 1) + nn, rec = mn + z / 5;
    if (got == 0) { REQ(rec >= maxint || rec * (int) sizeof(typename K::T) >= (__int128) 1 << 63 , "[%s] recommended(%ld, %ld, %ld) is 0 although the size fits", K::nm(), nz, m, n); return; }
    REQ(rec <= maxint, "[%s] recommended(%ld, %ld, %ld) is %zu, the true value overflows", K::nm(), nz, m, n, got); REQ((__int128) got == rec, "[%s] recommended(%ld, %ld, %ld) is %zu, documented: %ld", K::nm(), nz, m, n, got, (long) rec);
}
static const std::vector<long> &c04_grid(bool is64)
{
    static std::vector<long> g[2]; auto &v = g[is64]; if (!v.empty()) return v; long M = is64 ? 9223372036854775807L : 2147483647L; std::set<long> s = {-M - 1, -M, -2, -1, 0, 1, 2, 3, 5, 100, 12345};
    for (int q : {1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 20, 24}) for (int e = -12; e <= 2; e++) { if (q == 1 && e > 0) continue; s.insert(M / q + e); } if (is64) for (int q : {2, 8, 16, 24, 32, 48}) for (int e : {-7, -1, 0, 1}) s.insert((long) (~0ul / q) + e); for (int b = 4; b < (is64 ? 63 : 31); b += 3) s.insert(1L << b);
    v.assign(s.begin(), s.end()); return v;
}
// around the largest size: for each pair, the third size for which the sum comes closest to the limit
template <class K> void c04_edge(long a, long b, long M)
{
    if (a < 0 || b < 0) return; __int128 base; 
    base = (__int128) M - 10 - 11 * (__int128) 0; 
    { __int128 left = base - 4 * (__int128) a - 7 * (__int128) b; if (left > 0) { long z = (long) (left * 5 / 11); for (long e = -8; e <= 8; e++) if ((__int128) z + e <= M && z + e >= 0) c04_triple<K>(z + e, a, b, M); } }
    { __int128 left = base - (2 * (__int128) a + a / 5) - 7 * (__int128) b; if (left > 0) { long r = (long) (left / 4); for (long e = -8; e <= 8; e++) if (r + e >= 0) c04_triple<K>(a, r + e, b, M); } }
    { __int128 left = base - (2 * (__int128) a + a / 5) - 4 * (__int128) b; if (left > 0) { long c = (long) (left / 7); for (long e = -8; e <= 8; e++) if (c + e >= 0) c04_triple<K>(a, b, c + e, M); } }
}
template <class K> void c04_real(int nz, int m, int n)
{   // the size that the ordering call asks for when given too little
    typedef typename K::T T; T st[COLAMD_STATS]; std::vector<T> p(n + 1, 0), a(1, 0); p[n] = nz; if (n == 0 && nz) return;
    int ok = K::col(m, n, 0, a.data(), p.data(), nullptr, st); REQ(!ok && st[3] == -7, "[%s] nz=%d, %d-by-%d: no workspace is accepted", K::nm(), nz, m, n); long nd = (long) st[4];
    size_t rec = K::rec(nz, m, n); mc::step(mc::mix(nd, rec)); mc::trace(); mc::outcome(5); REQ((long) rec >= nd, "[%s] nz=%d, %d-by-%d: recommended %zu, but %ld are needed", K::nm(), nz, m, n, rec, nd);
}
template <class K> void c04_order(const Pat &q)
{
    Raw r = flat(q); long nd; { typedef typename K::T T; T st[COLAMD_STATS]; std::vector<T> p(r.p.begin(), r.p.end()), a(r.a.begin(), r.a.end()); a.push_back(0); int ok = K::col(r.m, r.n, 0, a.data(), p.data(), nullptr, st); REQ(!ok, "no workspace is accepted"); nd = (long) st[4]; }
    for (double k : {10.0, -1.0}) for (long al : {nd, (long) K::rec((typename K::T) r.a.size(), r.m, r.n)}) { Kn kn; kn.row = kn.col = k; Res o = col<K>(r, al, kn); mc::trace(); REQ(o.ok && is_perm(o.P), "[%s] Alen = %ld: status %ld, %s", K::nm(), al, o.st[3], vstr(o.P).c_str()); mc::outcome(0); }
    Kn kn; Res o = col<K>(r, nd - 1, kn); REQ(!o.ok, "[%s] less than the required size was accepted", K::nm());
}
static void c04(const Pat &q) { c04_order<K32>(q); c04_order<K64>(q); }
template <class K> void c04_huge(uint64_t k)
{   // sizes for which no workspace could be large enough: refused, without looking at the matrix
    mc::Dec d(k); static const int v[] = {0, 1, 2147483647, 2147483646, 1073741824, 536870912, 536870911, 357913941}; int nz = v[d(8)], m = v[d(8)], al = v[d(8)]; typedef typename K::T T; T a[1] = {0}, p[2] = {0, nz}, st[COLAMD_STATS];
    __int128 nd = 2 * (__int128) nz + 12 + 4 * ((__int128) m + 1) + 1; if (nd <= al) return; int ok = K::col(m, 1, al, a, p, nullptr, st); mc::step(st[3]); mc::trace(); mc::outcome(6); REQ(!ok && st[3] == -7, "[%s] nz=%d, %d-by-1, Alen=%d: returned %d, status %ld", K::nm(), nz, m, al, ok, (long) st[3]);
}
// ------------------------------------------------------------------ C05
static double thr(double knob, double s) { return knob < 0 ? -1 : std::max(16.0, floor(std::min(knob * s, 1e9))); }
struct Dead { std::vector<int> empty, dense, null, rest; int rows = 0; std::vector<char> rowdead; };
static Dead dead_of(const Pat &q, const Kn &k)
{
    Pat c = q.clean(); Dead d; double kr = k.null ? 10 : k.row, kc = k.null ? 10 : k.col, tr = kr < 0 ? c.n - 1 : thr(kr, sqrt((double) c.n)), tc = kc < 0 ? c.m - 1 : thr(kc, sqrt((double) std::min(c.m, c.n)));
    std::vector<int> deg(c.m, 0); std::vector<char> gone(c.n, 0); d.rowdead.assign(c.m, 0);
    for (int j = 0; j < c.n; j++) { if (c.col[j].empty()) { d.empty.push_back(j); gone[j] = 1; } else if ((double) c.col[j].size() > tc) { d.dense.push_back(j); gone[j] = 1; } else for (int i : c.col[j]) deg[i]++; }
    for (int i = 0; i < c.m; i++) if (deg[i] == 0 || deg[i] > tr) { d.rows++; d.rowdead[i] = 1; }
    for (int j = 0; j < c.n; j++) if (!gone[j]) { bool live = false; for (int i : c.col[j]) live = live || !d.rowdead[i]; (live ? d.rest : d.null).push_back(j); }
    return d;
}
template <class K> void c05_type(const Pat &q)
{
    Raw r = flat(q); bool big = std::max(q.m, q.n) > 16;
    for (auto &k : knobs(big)) {
        Res o = col<K>(r, need(r) + r.a.size() / 5, k); std::string w = mc::fmt("%s, %s", K::nm(), kstr(k).c_str()); mc::trace(); REQ(o.ok && is_perm(o.P), "[%s] refused", w.c_str()); Dead d = dead_of(q, k);
        int ndead = (int) (d.empty.size() + d.dense.size() + d.null.size()), nl = q.n - ndead; if (d.dense.size() + d.null.size()) mc::outcome(8); else mc::outcome(7);
        REQ(o.st[0] == d.rows, "[%s] stats[0] is %ld, %d rows are dense or empty", w.c_str(), o.st[0], d.rows); REQ(o.st[1] == ndead, "[%s] stats[1] is %ld; %zu columns are empty, %zu dense, %zu have only dense rows", w.c_str(), o.st[1], d.empty.size(), d.dense.size(), d.null.size());
        REQ(o.st[2] >= 0, "[%s] %ld garbage collections", w.c_str(), o.st[2]);
        std::vector<int> tail(o.P.begin() + nl, o.P.end()), mid(tail.begin(), tail.end() - d.empty.size()), last(tail.end() - d.empty.size(), tail.end()), want = d.dense; want.insert(want.end(), d.null.begin(), d.null.end()); std::sort(want.begin(), want.end()); std::sort(mid.begin(), mid.end());
        REQ(last == d.empty, "[%s] the empty columns (%s) are not last in their order: %s", w.c_str(), vstr(d.empty).c_str(), vstr(o.P).c_str()); REQ(mid == want, "[%s] the dense columns and those with dense rows only (%s) are not before the empty ones: %s", w.c_str(), vstr(want).c_str(), vstr(o.P).c_str());
    }
}
static void c05(const Pat &q) { c05_type<K32>(q); c05_type<K64>(q); }
template <class K> void c05_sym_type(const Pat &q)
{
    Raw r = flat(q); Pat lo = lower(q); int n = q.n; Adj a = adj_of(lo); bool big = n > 16;
    for (auto &k : knobs(big)) {
        Res o = sym<K>(r, k); std::string w = mc::fmt("%s, symamd, %s", K::nm(), kstr(k).c_str()); mc::trace(); REQ(o.ok && is_perm(o.P), "[%s] refused", w.c_str()); double kr = k.null ? 10 : k.row, t = thr(kr, sqrt((double) n));
        std::vector<char> st(n, 0); int nd = 0, later = 0; for (int i = 0; i < n; i++) if (degree(a, i) == 0 || (t >= 0 && degree(a, i) > t)) { st[i] = 1; nd++; }
        for (int i = 0; i < n; i++) if (!st[i]) { bool live = false; for (int j = 0; j < n; j++) if (a[i][j] && !st[j]) live = true; later += !live; } bool anydense = false; for (int i = 0; i < n; i++) anydense |= st[i] && degree(a, i); mc::outcome(anydense ? 8 : 7);
        REQ(o.st[0] == nd || o.st[0] == nd + later, "[%s] stats[0] is %ld, %d rows and columns are dense or empty", w.c_str(), o.st[0], nd); REQ(o.st[0] == o.st[1], "[%s] stats[0] is %ld, stats[1] is %ld", w.c_str(), o.st[0], o.st[1]);
        if (o.st[0] == nd) for (int t2 = n - nd; t2 < n; t2++) REQ(st[o.P[t2]], "[%s] the dense or empty rows are not ordered last: %s", w.c_str(), vstr(o.P).c_str());
    }
}
static void c05_sym(const Pat &q) { c05_sym_type<K32>(q); c05_sym_type<K64>(q); }
// ------------------------------------------------------------------ C06
static int sum(const std::vector<int> &v) { int s = 0; for (int x : v) s += x; return s; }
static Pat rows_of(int n, const std::vector<std::vector<int>> &rows) { Pat q((int) rows.size(), n); for (size_t i = 0; i < rows.size(); i++) for (int j : rows[i]) q.col[j].push_back((int) i); return q; }
template <class K> void c06_col(const Pat &q)
{   // column intersection graph
    int n = q.n; Adj a(n, std::vector<char>(n, 0)); for (int j = 0; j < n; j++) for (int k = 0; k < j; k++) for (int i : q.col[j]) for (int i2 : q.col[k]) if (i == i2) a[j][k] = a[k][j] = 1;
    int edges = 0; for (int i = 0; i < n; i++) edges += degree(a, i); edges /= 2; Raw r = flat(q);
    for (auto &k : knobs(false)) { if (k.row == -1 || k.col == -1) continue; Res o = col<K>(r, need(r), k); mc::trace(); mc::outcome(9); REQ(o.ok && is_perm(o.P), "refused"); int f = sum(colcounts(a, o.P)) - edges; REQ(f == 0, "[%s, colamd, %s] the ordering %s causes %d fill-in entries in the factor of A'A", K::nm(), kstr(k).c_str(), vstr(o.P).c_str(), f); }
}
template <class K> void c06_sym(const Adj &a)
{
    int n = (int) a.size(), edges = 0, md = 0; for (int i = 0; i < n; i++) { edges += degree(a, i); md = std::max(md, degree(a, i)); } edges /= 2; if (md > 16) return;
    for (int how : {1, 4}) { Raw r = flat(present(a, how)); for (double ag : {1.0, 0.0}) { Kn k; k.aggr = ag; Res o = sym<K>(r, k); mc::trace(); mc::outcome(9); REQ(o.ok && is_perm(o.P), "refused"); int f = sum(colcounts(a, o.P)) - edges; REQ(f == 0, "[%s, symamd, %s] the ordering %s causes %d fill-in entries", K::nm(), kstr(k).c_str(), vstr(o.P).c_str(), f); } }
}
static void c06(const Adj &a)
{   // as a matrix: one row for each edge, and one for each node
    int n = (int) a.size(); std::vector<std::vector<int>> rows, rows2; for (int i = 0; i < n; i++) { for (int j = 0; j < i; j++) if (a[i][j]) { rows.push_back({j, i}); rows2.push_back({j, i}); } rows2.push_back({i}); if (i & 1) rows2.push_back({i}); }
    for (auto &rw : {rows, rows2}) { Pat q = rows_of(n, rw); c06_col<K32>(q); c06_col<K64>(q); std::vector<std::vector<int>> rv(rw.rbegin(), rw.rend()); q = rows_of(n, rv); c06_col<K32>(q); }
    c06_sym<K32>(a); c06_sym<K64>(a);
}
static void c06_cliques(const std::vector<int> &b)
{
    int n = (int) b.size(), nb = 0; for (int x : b) nb = std::max(nb, x + 1); Adj a(n, std::vector<char>(n, 0)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a[i][j] = i != j && b[i] == b[j]; c06_sym<K32>(a); c06_sym<K64>(a);
    for (int rep = 1; rep < 3; rep++) { std::vector<std::vector<int>> rows; for (int c = 0; c < nb; c++) { std::vector<int> r; for (int i = 0; i < n; i++) if (b[i] == c) r.push_back(i); for (int t = 0; t < rep; t++) rows.push_back(r); } Pat q = rows_of(n, rows); c06_col<K32>(q); c06_col<K64>(q); }
}
// ------------------------------------------------------------------ spaces
static Pat big(uint64_t k, int lo, int cnt, int presn) { mc::Dec d(k); int t = (int) d(NSTRUCT), lab = (int) d(4), how = (int) d(presn), n = lo + (int) d(cnt); return present(relabel(structured_graph(t, n), lab), how); }
static std::string bigs(uint64_t k, int lo, int cnt, int presn) { mc::Dec d(k); int t = (int) d(NSTRUCT), lab = (int) d(4), how = (int) d(presn), n = lo + (int) d(cnt); return mc::fmt("%s of dimension %d, labelling %d, presentation %d", struct_name(t), n, lab, how); }
typedef std::function<void(const Pat &)> F;
static void addf(const GFam &g, F f) { mc::add(g.name, g.n, [g, f](uint64_t k) { f(g.get(k)); }, [g](uint64_t k) { return g.get(k).str(); }); }
static void add_big(int lo, int cnt, int presn, F f) { mc::add(mc::fmt("structured-%d-to-%d", lo, lo + cnt - 1), (uint64_t) NSTRUCT * 4 * presn * cnt, [=](uint64_t k) { f(big(k, lo, cnt, presn)); }, [=](uint64_t k) { return bigs(k, lo, cnt, presn); }); }
// rectangular patterns given by congruences
static GFam congr(int lo, int cnt)
{
    return {mc::fmt("congruences-%d-to-%d", lo, lo + cnt - 1), (uint64_t) cnt * cnt * 4 * 4 * 5 * 3, [=](uint64_t k) { mc::Dec d(k); int m = lo + (int) d(cnt), n = lo + (int) d(cnt), a = 1 + (int) d(4), b = 1 + (int) d(4), c = 2 + (int) d(5), e = 1 + (int) d(3); Pat q(m, n); for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) if ((i * a + j * b + i * j) % (c + 2) < e) q.col[j].push_back(i); return q; }};
}
// dense rows and columns of every size in an otherwise sparse pattern
static GFam hubs(int lo, int cnt)
{
    return {mc::fmt("dense-rows-and-columns-%d-to-%d", lo, lo + cnt - 1), (uint64_t) cnt * 5 * 24 * 24, [=](uint64_t k) { mc::Dec d(k); int m = lo + (int) d(cnt), n = std::max(1, m + ((int) d(5) - 2) * 4), dr = (int) d(24), dc = (int) d(24); Pat q(m, n); std::vector<std::set<int>> s(n); for (int j = 0; j < n; j++) { if (j % 7 != 3) s[j].insert((2 * j) % m); if (j % 3 == 0) s[j].insert((5 * j + 1) % m); } for (int t = 0; t < 10 + dr && t < n; t++) s[t].insert(m / 2); for (int t = 0; t < 10 + dc && t < m; t++) s[n / 3].insert(t); for (int t = 0; t < dr + dc && t < n; t++) s[n - 1 - t].insert(0); for (int j = 0; j < n; j++) q.col[j].assign(s[j].begin(), s[j].end()); return q; }};
}
// irregular rectangular patterns given by arithmetic, some with repeated columns (supercolumns) and empty ones
static GFam arith_rect()
{
    return {"irregular-rectangular", 8 * 64 * 2, [](uint64_t k) { static const int M[8] = {12, 20, 30, 17, 60, 40, 25, 90}, N[8] = {20, 12, 17, 40, 40, 60, 25, 50};
        mc::Dec d(k); int s = (int) d(8), m = M[s], n = N[s]; long a = 1 + (long) d(8), b = (long) d(8), twin = (long) d(2); Pat q(m, n);
        for (long j = 0; j < n; j++) { long c = twin ? j * a / (a + 1) : j; std::set<int> r; if ((c + b) % 11) { r.insert((int) ((a * c + b) % m)); r.insert((int) ((c * c + a) % m)); if (c % 3) r.insert((int) ((c * c * c + b * c) % m)); if (c % 4 == 1) r.insert((int) ((c * (a + b) + 7) % m)); } q.col[j].assign(r.begin(), r.end()); }
        return q; }};
}
static Pat jumbled(Pat p) { for (auto &c : p.col) { std::reverse(c.begin(), c.end()); size_t s = c.size(); for (size_t i = 0; i < s; i += 2) c.push_back(c[i]); } return p; }
static Pat full_from(const Adj &a, uint64_t x)
{   // a graph, and in addition entries on and above the diagonal and repetitions chosen by x
    int n = (int) a.size(); Pat p = present(a, 1); for (int j = 0; j < n; j++) { std::vector<int> c; for (int i = 0; i <= j; i++) { if (x % 3) c.push_back(i); x = x / 3 + (x % 3) * 7 + i + j; } for (int i : p.col[j]) { c.push_back(i); if (x % 5 == 0) c.push_back(i); if (x % 7 == 0 && j > 0) c.push_back(0); x = x / 2 + 5 * i + 3; } p.col[j] = c; } return p;
}
// ------------------------------------------------------------------ more rows, columns or entries than 16 bits count
typedef std::vector<std::pair<int, int>> Edges;
// a hub that is not set aside makes the work quadratic
static std::vector<Kn> wide_knobs(const Pat &q) { std::vector<Kn> v(2); v[0].null = true; v[1].aggr = 0; v[1].row = 1; v[1].col = 1; size_t d = 0; for (auto &c : q.col) d = std::max(d, c.size()); if (d < 1000) { Kn k; k.row = k.col = -1; v.push_back(k); } return v; }
template <class K> void wide_col(const std::string &P, const Pat &q)
{
    Raw r = flat(q), c = flat(q.clean()); long mn = need(r);
    for (auto &k : wide_knobs(q)) {
        if (P == "C01") {
            Res o = col<K>(r, mn, k, 0xFF), o2 = col<K>(c, need(c) + c.a.size() / 5, k); std::string w = kstr(k); mc::trace(); req_status(K::nm(), o, r, w.c_str()); REQ(is_perm(o.P), "[%s, %s] not a permutation", K::nm(), w.c_str());
            REQ(o.P == o2.P, "[%s, %s] more workspace, or no repetitions, change the ordering", K::nm(), w.c_str()); if (o.st[2] > 0) mc::outcome(2);
        } else {
            Res o = col<K>(r, mn + r.a.size() / 5, k); std::string w = mc::fmt("%s, %s", K::nm(), kstr(k).c_str()); mc::trace(); REQ(o.ok && is_perm(o.P), "[%s] refused", w.c_str()); Dead d = dead_of(q, k); int ndead = (int) (d.empty.size() + d.dense.size() + d.null.size()), nl = q.n - ndead;
            REQ(o.st[0] == d.rows && o.st[1] == ndead, "[%s] stats[0] is %ld, stats[1] is %ld; %d dense or empty rows, %d columns set aside", w.c_str(), o.st[0], o.st[1], d.rows, ndead); mc::outcome(d.dense.size() + d.null.size() ? 8 : 7);
            std::vector<int> tail(o.P.begin() + nl, o.P.end()), mid(tail.begin(), tail.end() - d.empty.size()), last(tail.end() - d.empty.size(), tail.end()), want = d.dense; want.insert(want.end(), d.null.begin(), d.null.end()); std::sort(want.begin(), want.end()); std::sort(mid.begin(), mid.end());
            REQ(last == d.empty, "[%s] the empty columns are not last in their order", w.c_str()); REQ(mid == want, "[%s] the dense columns and those with dense rows only are not before the empty ones", w.c_str());
        }
    }
}
template <class K> void wide_sym(const Pat &q)
{
    Raw r = flat(q), lo = flat(lower(q)); for (auto &k : wide_knobs(q)) { std::string ks = kstr(k); Res o = sym<K>(r, k), l = sym<K>(lo, k, 0, false, 0); mc::trace(); req_status(K::nm(), o, r, ks.c_str()); REQ(is_perm(o.P), "[%s, %s] not a permutation", K::nm(), ks.c_str());
        if (q.sorted()) REQ(l.P == o.P && o.st[0] == l.st[0] && o.st[1] == l.st[1] && o.st[2] == l.st[2], "[%s, %s] entries on or above the diagonal change the ordering or the statistics", K::nm(), ks.c_str()); }
}
// one row for each edge: an ordering of a forest without fill
template <class K> void wide_c06(const Edges &E)
{
    int n = WIDE_N; Pat q((int) E.size() + n, n); std::vector<std::vector<int>> lo(n); int k = 0; for (auto &e : E) { q.col[e.first].push_back(k); q.col[e.second].push_back(k); k++; lo[std::min(e.first, e.second)].push_back(std::max(e.first, e.second)); } for (int j = 0; j < n; j++) q.col[j].push_back(k++);
    Raw r = flat(q); Kn kn; Res o = col<K>(r, need(r), kn); mc::trace(); mc::outcome(9); REQ(o.ok && is_perm(o.P), "refused"); REQ(most_later(n, E, o.P) <= 1, "[%s, colamd] the ordering of a forest causes fill-in", K::nm());
    Pat s(n, n); s.col = lo; for (auto &c : s.col) std::sort(c.begin(), c.end()); r = flat(s); o = sym<K>(r, kn); mc::trace(); REQ(o.ok && is_perm(o.P), "refused"); REQ(most_later(n, E, o.P) <= 1, "[%s, symamd] the ordering of a forest causes fill-in", K::nm());
}
static void wide_c03(const Pat &q)
{
    Raw r = flat(q); int n = q.n; c03_input(q.m, n, r.p, r.a); if (!r.a.empty()) for (size_t k : {(size_t) 0, std::min(r.a.size() - 1, (size_t) 65536), r.a.size() - 1}) for (int v : {-1, q.m}) { auto a = r.a; a[k] = v; c03_input(q.m, n, r.p, a); }
    for (int j : {65536, n - 1}) if (j < n) { auto p = r.p; p[j] = r.p[j + 1] + 1; c03_input(q.m, n, p, r.a); }
}
// tall and wide rectangles: band, congruences
static Pat wide_rect(uint64_t k)
{
    mc::Dec d(k); int s = (int) d(3), f = (int) d(3); int m = s == 0 ? 70001 : s == 1 ? 7 : 66000, n = s == 0 ? 7 : s == 1 ? 70001 : 68000; Pat q(m, n);
    if (s == 0) for (int j = 0; j < n; j++) for (int i = j; i < m; i += f == 0 ? 1 : 3 + j * f) q.col[j].push_back(i);
    else for (long j = 0; j < n; j++) { std::set<int> c; for (long t = 0; t < 1 + (j + f) % 3; t++) c.insert((int) ((j + t * t * (f == 2 ? 101 : 1)) % m)); if (j % 1000 != 7) q.col[j].assign(c.begin(), c.end()); }
    return q;
}
static void add_wide_rect(std::function<void(const Pat &)> f) { mc::add("beyond-16-bits-rectangular", 9, [f](uint64_t k) { f(wide_rect(k)); }, [](uint64_t k) { Pat q = wide_rect(k); return mc::fmt("%d-by-%d, family %llu", q.m, q.n, (unsigned long long) k / 3); }); }
void mc::register_spaces(const std::string &P, bool th)
{
    (void) dummy; mc::outcome_name(0, "ordered"); mc::outcome_name(1, "ordered, jumbled input"); mc::outcome_name(2, "with garbage collection"); mc::outcome_name(3, "out of memory"); mc::outcome_name(4, "refused"); mc::outcome_name(5, "size fits"); mc::outcome_name(6, "size overflows"); mc::outcome_name(7, "nothing dense"); mc::outcome_name(8, "dense rows or columns"); mc::outcome_name(9, "fill compared");
    auto rect = [&](int cap, F f) { for (int m = 0; m <= 6; m++) for (int n = 0; n <= 6; n++) if (m * n <= cap) addf(all_patterns(m, n), f); };
    auto jm = [&](GFam g, F f) { g.name = "presentations-" + g.name; addf(g, f); };
    auto lad2 = [&](F f) { add_ladder(th, "structured-48-and-more-symmetric", [f](const Adj &a, int) { f(present(a, 1)); }); };
    auto lad = [&](F f) { add_ladder(th, "structured-48-and-more", [f](const Adj &a, int t) { f(present(a, t % 5)); }); };
    if (P == "C01" || P == "C05") { auto f = [P](const Pat &q) { wide_col<K32>(P, q); wide_col<K64>(P, q); }; add_wide(th, [f](const Pat &q, const Edges &, int) { f(q); }); add_wide_rect(f); }
    if (P == "C02") add_wide(th, [](const Pat &q, const Edges &, int) { wide_sym<K32>(q); wide_sym<K64>(q); });
    if (P == "C03") { add_wide(th, [](const Pat &q, const Edges &, int) { wide_c03(q); }); add_wide_rect(wide_c03); }
    if (P == "C04") { add_wide(th, [](const Pat &q, const Edges &, int t) { if (t != 5) c04(q); }); add_wide_rect([](const Pat &q) { if (q.n > 7) c04(q); }); }
    if (P == "C06") add_wide(false, [](const Pat &, const Edges &E, int t) { if (t <= 3) { wide_c06<K32>(E); wide_c06<K64>(E); } });
    if (P == "C01") { lad(c01); addf(arith_rect(), c01); if (th) addf(hubs(100, 3), c01); 
        rect(th ? 12 : 9, c01_all); if (th) { addf(all_patterns(4, 4), c01); addf(all_patterns(3, 5), c01); addf(all_patterns(5, 3), c01); } else { addf(all_patterns(3, 4), c01); addf(all_patterns(4, 3), c01); }
        jm(all_lists(1, 2, 4), c01_all); jm(all_lists(2, 2, 3), c01_all); jm(all_lists(2, 3, 2), c01_all); jm(all_lists(3, 2, 3), c01_all); jm(all_lists(3, 3, th ? 3 : 2), c01);
        add_big(5, th ? 30 : 9, th ? 5 : 2, c01_all); add_big(17, 24, 1, c01); addf(congr(4, th ? 9 : 5), c01_all); addf(congr(16, th ? 6 : 2), c01); addf(hubs(16, th ? 10 : 1), c01);
        mc::add("structured-jumbled", NSTRUCT * 4 * 20, [](uint64_t k) { c01(jumbled(big(k, 5, 20, 1))); }, [](uint64_t k) { return bigs(k, 5, 20, 1) + ", columns reversed, every other entry twice"; });
    } else if (P == "C02") { lad(c02);
        for (int n = 0; n <= (th ? 4 : 3); n++) addf(all_patterns(n, n), c02); for (int n = 4; n <= (th ? 6 : 5); n++) addf(all_graphs(n, 1), c02);
        mc::add("graphs-4-presentations", 64 * 3000, [](uint64_t k) { mc::Dec d(k); Adj a = graph_bits(4, d(64)); c02(full_from(a, d(3000))); }, [](uint64_t k) { mc::Dec d(k); Adj a = graph_bits(4, d(64)); return full_from(a, d(3000)).str(); });
        jm(all_lists(2, 2, 4), c02); jm(all_lists(3, 3, th ? 3 : 2), c02); add_big(5, th ? 30 : 12, 5, c02); add_big(17, 24, 1, c02);
        mc::add("structured-jumbled", NSTRUCT * 4 * 20, [](uint64_t k) { c02(jumbled(big(k, 5, 20, 5))); }, [](uint64_t k) { return bigs(k, 5, 20, 5) + ", columns reversed, every other entry twice"; });
    } else if (P == "C03") {
        mc::assume("the arrays hold what the sizes and the last column pointer promise; column pointers stay below 2^30");
        for (int m = 0; m <= 3; m++) for (int n = 0; n <= 3; n++) c03_raw(m, n, n == 0 ? 3 : th ? (m == 3 && n == 3 ? 3 : 4) : m + n > 4 ? 2 : 3);
        mc::add("null-and-negative", 2 * 2 * 2 * 2 * 4 * 4, [](uint64_t k) { c03_null_type<K32>(k); c03_null_type<K64>(k); }, [](uint64_t k) { mc::Dec d(k); int a = d(2), p = d(2), s = d(2), y = d(2), m = (int) d(4) - 2, n = (int) d(4) - 2; return mc::fmt("%s m=%d n=%d%s%s%s", y ? "symamd" : "colamd", m, n, a ? "" : ", A NULL", p ? "" : ", p NULL", s ? "" : ", stats NULL"); });
        add_big(3, th ? 18 : 7, 2, c03_single); addf(congr(3, th ? 6 : 3), c03_single);
    } else if (P == "C04") {
        for (int w = 0; w < 2; w++) { size_t g = c04_grid(w).size(); mc::add(w ? "size-triples-long" : "size-triples-int", g * g, [=](uint64_t k) { auto &v = c04_grid(w); long a = v[k % g], b = v[k / g]; for (long c : v) { if (w) c04_triple<K64>(a, b, c, 9223372036854775807L); else c04_triple<K32>(a, b, c, 2147483647); } }, [=](uint64_t k) { auto &v = c04_grid(w); return mc::fmt("sizes %ld, %ld and every third size of the grid", v[k % g], v[k / g]); });
            mc::add(w ? "limit-long" : "limit-int", g * g, [=](uint64_t k) { auto &v = c04_grid(w); long a = v[k % g], b = v[k / g]; if (w) c04_edge<K64>(a, b, 9223372036854775807L); else c04_edge<K32>(a, b, 2147483647); }, [=](uint64_t k) { auto &v = c04_grid(w); return mc::fmt("sizes %ld, %ld and the third ones nearest to the limit", v[k % g], v[k / g]); }); }
        int q = th ? 60 : 30; mc::add("small-sizes", (uint64_t) q * q * q, [=](uint64_t k) { mc::Dec d(k); int z = d(q), m = d(q), n = d(q); c04_real<K32>(z, m, n); c04_real<K64>(z, m, n); c04_triple<K32>(z, m, n, 2147483647); c04_triple<K64>(z, m, n, 9223372036854775807L); }, [=](uint64_t k) { mc::Dec d(k); int z = d(q), m = d(q), n = d(q); return mc::fmt("%d entries, %d-by-%d", z, m, n); });
        mc::add("impossible-sizes", 512, [](uint64_t k) { c04_huge<K32>(k); c04_huge<K64>(k); }, [](uint64_t k) { return mc::fmt("combination %llu of sizes near the limit", (unsigned long long) k); });
        rect(th ? 16 : 12, c04); jm(all_lists(2, 2, 3), c04); add_big(5, th ? 36 : 16, 2, c04); addf(congr(4, th ? 14 : 6), c04); addf(hubs(16, th ? 8 : 2), c04);
    } else if (P == "C05") { lad(c05); addf(arith_rect(), c05); lad2(c05_sym);
        rect(th ? 12 : 9, c05); for (int n = 1; n <= (th ? 6 : 5); n++) addf(all_graphs(n, 1), c05_sym); jm(all_lists(3, 3, 2), c05);
        addf(hubs(14, th ? 16 : 6), c05); addf(congr(15, th ? 10 : 4), c05); 
        mc::add("structured-17-to-40-symmetric", NSTRUCT * 4 * 24, [](uint64_t k) { c05_sym(big(k, 17, 24, 1)); }, [](uint64_t k) { return bigs(k, 17, 24, 1); }); add_big(17, 24, 1, c05);
        mc::add("hubs-symmetric", 24 * 30 * 4, [](uint64_t k) { mc::Dec d(k); int deg = 12 + (int) d(24), n = 14 + (int) d(30), h = (int) d(4); Adj a(n, std::vector<char>(n, 0)); if (h & 1) a = structured_graph(0, n); for (int q = 0; q <= h / 2; q++) for (int i = 0; i < std::min(deg, n); i++) { int c = q ? n / 2 : n - 1, x = (i + q) % n; if (x != c) a[c][x] = a[x][c] = 1; } c05_sym(present(a, 1 + 3 * (h & 1))); }, [](uint64_t k) { mc::Dec d(k); int deg = 12 + (int) d(24), n = 14 + (int) d(30), h = (int) d(4); return mc::fmt("%s of %d nodes and %d hub(s) of degree %d", h & 1 ? "path" : "no edges", n, 1 + h / 2, deg); });
    } else if (P == "C06") { add_ladder(th, "forests-48-and-more", [](const Adj &a, int t) { if (t == 0 || t == 7 || t == 8) c06(a); }, false);
        int nf = th ? 8 : 7; for (int n = 1; n <= nf; n++) for (int l = 0; l < 3; l++) mc::add(mc::fmt("forests-%d-labelled-%d", n, l), factorial(n), [n, l](uint64_t k) { c06(forest(n, k, l)); }, [n, l](uint64_t k) { return present(forest(n, k, l), 1).str(); });
        mc::add("forests-larger", 4 * 4 * 40, [](uint64_t k) { mc::Dec d(k); static const int T[4] = {0, 7, 8, 2}; int t = T[d(4)], l = d(4), n = 8 + (int) d(40); if (t == 2 && n > 16) n = 16; c06(relabel(structured_graph(t, n), l)); }, [](uint64_t k) { mc::Dec d(k); static const int T[4] = {0, 7, 8, 2}; int t = T[d(4)], l = d(4), n = 8 + (int) d(40); return mc::fmt("%s of dimension %d, labelling %d", struct_name(t), n, l); });
        int nb = th ? 9 : 8; mc::add(mc::fmt("clique-unions-%d", nb), factorial(nb), [nb](uint64_t k) { mc::Dec d(k); std::vector<int> b(nb); int mx = 0; for (int i = 0; i < nb; i++) { b[i] = (int) d(i + 1); if (b[i] > mx) return; if (b[i] == mx) mx++; } c06_cliques(b); }, [](uint64_t k) { return mc::fmt("set partition number %llu", (unsigned long long) k); });
    }
}
