// h_amd: A01-A07, the AMD ordering code driven through amd.h
#include "slipx.h"
#include "graphs.h"
extern "C" {
#include "amd.h"
#include "colamd.h"
// not declared in amd.h; looked up weakly, so that a tree without them still builds
void amd_preprocess(int, const int *, const int *, int *, int *, int *, int *) __attribute__((weak));
void amd_l_preprocess(SuiteSparse_long, const SuiteSparse_long *, const SuiteSparse_long *, SuiteSparse_long *, SuiteSparse_long *, SuiteSparse_long *, SuiteSparse_long *) __attribute__((weak));
}
typedef SuiteSparse_long lng;
struct I32 {
    typedef int T; static const char *nm() { return "int"; }
    static int order(T n, const T *p, const T *i, T *P, double *C, double *I) { return amd_order(n, p, i, P, C, I); }
    static int valid(T m, T n, const T *p, const T *i) { return amd_valid(m, n, p, i); }
    static void defaults(double *C) { amd_defaults(C); }
    static void two(T n, T *Pe, T *Iw, T *Len, T iwlen, T pfree, T *Nv, T *Nx, T *La, T *He, T *El, T *De, T *W, double *C, double *I) { amd_2(n, Pe, Iw, Len, iwlen, pfree, Nv, Nx, La, He, El, De, W, C, I); }
    static bool pre(T n, const T *p, const T *i, T *Rp, T *Ri, T *W, T *F) { if (!amd_preprocess) return false; amd_preprocess(n, p, i, Rp, Ri, W, F); return true; }
    static void control(double *C) { amd_control(C); } static void info(double *I) { amd_info(I); }
};
struct I64 {
    typedef lng T; static const char *nm() { return "long"; }
    static int order(T n, const T *p, const T *i, T *P, double *C, double *I) { return (int) amd_l_order(n, p, i, P, C, I); }
    static int valid(T m, T n, const T *p, const T *i) { return (int) amd_l_valid(m, n, p, i); }
    static void defaults(double *C) { amd_l_defaults(C); }
    static void two(T n, T *Pe, T *Iw, T *Len, T iwlen, T pfree, T *Nv, T *Nx, T *La, T *He, T *El, T *De, T *W, double *C, double *I) { amd_l2(n, Pe, Iw, Len, iwlen, pfree, Nv, Nx, La, He, El, De, W, C, I); }
    static bool pre(T n, const T *p, const T *i, T *Rp, T *Ri, T *W, T *F) { if (!amd_l_preprocess) return false; amd_l_preprocess(n, p, i, Rp, Ri, W, F); return true; }
    static void control(double *C) { amd_l_control(C); } static void info(double *I) { amd_l_info(I); }
};
static bool is_perm(const std::vector<int> &P) { std::vector<char> s(P.size(), 0); for (int x : P) { if (x < 0 || x >= (int) P.size() || s[x]) return false; s[x] = 1; } return true; }
static std::string vstr(const std::vector<int> &v) { std::string s; for (int x : v) s += mc::fmt("%s%d", s.empty() ? "" : " ", x); return s; }

// exact-size copy of an array, so that the sanitizer sees every access outside it
template <class T> struct Arr {
    T *a; size_t n; std::vector<T> keep;
    Arr(const std::vector<T> &v) : n(v.size()), keep(v) { a = (T *) malloc(n ? n * sizeof(T) : 1); for (size_t i = 0; i < n; i++) a[i] = v[i]; }
    Arr(size_t n, int byte) : n(n) { a = (T *) malloc(n ? n * sizeof(T) : 1); memset(a, byte, n * sizeof(T)); }
    ~Arr() { free(a); }
    Arr(const Arr &) = delete;
    bool same() const { for (size_t i = 0; i < n; i++) if (a[i] != keep[i]) return false; return true; }
};
struct Ctl { double dense = 10, aggr = 1; bool null = false, info = true; int fill = 0xCD; };
static std::string cstr(const Ctl &c) { return c.null ? std::string("Control NULL") : mc::fmt("dense=%g aggressive=%g", c.dense, c.aggr) + (c.info ? "" : ", Info NULL"); }
struct Res { int st = 0; std::vector<int> P; double I[AMD_INFO]; };
template <class X> void ap_ai(const Pat &p, std::vector<typename X::T> &ap, std::vector<typename X::T> &ai)
{
    ap.assign(1, 0); ai.clear(); for (auto &c : p.col) { for (int i : c) ai.push_back(i); ap.push_back(ai.size()); }
}
template <class X> Res order(const Pat &p, const Ctl &c)
{
    typedef typename X::T T; std::vector<T> vp, vi; ap_ai<X>(p, vp, vi); Arr<T> Ap(vp), Ai(vi), P((size_t) p.n, c.fill); Res r;
    double C[AMD_CONTROL]; X::defaults(C); C[AMD_DENSE] = c.dense; C[AMD_AGGRESSIVE] = c.aggr; double C0[AMD_CONTROL]; memcpy(C0, C, sizeof C);
    for (double &d : r.I) d = 12345; xa::fill = c.fill; use_tracked(); uint64_t l0 = xa::live;
    r.st = X::order(p.n, Ap.a, Ai.a, P.a, c.null ? nullptr : C, c.info ? r.I : nullptr);
    REQ(Ap.same() && Ai.same(), "[%s, %s] the input pattern was changed", X::nm(), cstr(c).c_str());
    REQ(!memcmp(C, C0, sizeof C), "[%s, %s] Control was changed", X::nm(), cstr(c).c_str());
    REQ(xa::live == l0, "[%s, %s] %lld block(s) not released: %s", X::nm(), cstr(c).c_str(), (long long) (xa::live - l0), xa::live_str().c_str());
    for (int k = 0; k < p.n; k++) r.P.push_back(P.a[k] < -9 || P.a[k] > 1000000 ? -9 : (int) P.a[k]);
    uint64_t h = r.st; for (int x : r.P) h = mc::mix(h, x); mc::step(h);
    return r;
}
static void req_perm(const char *ty, const Ctl &c, const Res &r, const Pat &p)
{
    int want = p.sorted() || p.n == 0 ? AMD_OK : AMD_OK_BUT_JUMBLED;
    REQ(r.st == want, "[%s, %s] amd_order returned %d, expected %d", ty, cstr(c).c_str(), r.st, want);
    REQ(is_perm(r.P), "[%s, %s] not a permutation: %s", ty, cstr(c).c_str(), vstr(r.P).c_str());
    if (c.info) REQ(r.I[AMD_STATUS] == want, "[%s, %s] Info[AMD_STATUS] is %g, expected %d", ty, cstr(c).c_str(), r.I[AMD_STATUS], want);
}

// ------------------------------------------------------------------ A01
static std::vector<Ctl> controls(int n)
{
    std::vector<Ctl> v; Ctl c;
    for (int a = 0; a < 2; a++) for (double d : n <= 16 ? std::vector<double>{10, 0} : std::vector<double>{-1, 0, 0.5, 1, 2, 3.7, 10, 1e10, 1e300}) { c = Ctl(); c.dense = d; c.aggr = a ? 7 : 0; v.push_back(c); }
    c = Ctl(); c.null = true; v.push_back(c); c.info = false; c.fill = 0; v.push_back(c); c.null = false; c.fill = 0xFF; v.push_back(c);
    return v;
}
template <class X> void a01_type(const Pat &p)
{
    std::vector<int> def;
    for (auto &c : controls(p.n)) {
        Res r = order<X>(p, c); req_perm(X::nm(), c, r, p); mc::trace(); mc::outcome(r.st == AMD_OK ? 0 : 1);
        if (c.null || (c.dense == 10 && c.aggr != 0)) { if (def.empty()) def = r.P; REQ(r.P == def, "[%s, %s] the ordering differs from the one with default settings given explicitly", X::nm(), cstr(c).c_str()); }
    }
}
static void a01(const Pat &p) { a01_type<I32>(p); a01_type<I64>(p); }
// every presentation of one pattern is ordered alike (among the jumbled ones), and duplicates of entries do not matter
template <class X> void a01_jumbled_type(const Pat &p)
{
    Pat q = p.clean(); Pat rev = q; bool jum = false;
    for (auto &c : rev.col) { std::reverse(c.begin(), c.end()); if (c.size() > 1) jum = true; }
    if (!jum) for (auto &c : rev.col) if (c.size() == 1) { c.push_back(c[0]); jum = true; break; }
    if (p.sorted()) return;
    for (double a : {0.0, 1.0}) {
        Ctl c; c.aggr = a; Res r = order<X>(p, c), s = order<X>(rev, c); req_perm(X::nm(), c, r, p); req_perm(X::nm(), c, s, rev); mc::trace(); mc::outcome(1);
        REQ(r.P == s.P, "[%s, %s] two unsorted presentations of the same pattern are ordered differently: %s and %s", X::nm(), cstr(c).c_str(), vstr(r.P).c_str(), vstr(s.P).c_str());
    }
}
static void a01_jumbled(const Pat &p) { a01(p); a01_jumbled_type<I32>(p); a01_jumbled_type<I64>(p); }
// the interface that takes the graph in its own workspace: every layout, minimum workspace and more
template <class X> void a01_two(const Adj &a)
{
    typedef typename X::T T; int n = (int) a.size(); if (n == 0) return;
    for (int gap = 0; gap < 3; gap++) for (int el = 0; el < 3; el++) for (double ag : {0.0, 1.0}) {
        std::vector<T> Pe(n, (T) -77), Len(n), Iw; std::vector<int> rows(n); for (int i = 0; i < n; i++) rows[i] = gap == 1 ? n - 1 - i : i;
        for (int i : rows) { int d = degree(a, i); Len[i] = d; if (!d) continue; Pe[i] = Iw.size(); if (gap == 1) { for (int j = n - 1; j >= 0; j--) if (a[i][j]) Iw.push_back(j); } else for (int j = 0; j < n; j++) if (a[i][j]) Iw.push_back(j); if (gap == 2) Iw.push_back(-12345); }
        int pfree = (int) Iw.size(), iwlen = pfree + n + (el == 0 ? 0 : el == 1 ? 1 : pfree / 5 + 1); Iw.resize(iwlen, (T) 0x5A5A5A);
        Arr<T> aPe(Pe), aLen(Len), aIw(Iw), Nv(n, 0xCD), Nx(n, 0xCD), La(n, 0xCD), He(n, 0xCD), El(n, 0xCD), De(n, 0xCD), W(n, 0xCD);
        double C[AMD_CONTROL], I[AMD_INFO]; X::defaults(C); C[AMD_AGGRESSIVE] = ag; for (double &d : I) d = -1;
        X::two(n, aPe.a, aIw.a, aLen.a, iwlen, pfree, Nv.a, Nx.a, La.a, He.a, El.a, De.a, W.a, C, I);
        std::vector<int> P, Q; uint64_t h = 3; for (int k = 0; k < n; k++) { P.push_back((int) La.a[k]); Q.push_back((int) Nx.a[k]); h = mc::mix(h, P.back()); }
        mc::step(h); mc::trace(); mc::outcome(I[AMD_NCMPA] > 0 ? 3 : 2);
        REQ(is_perm(P), "[%s, layout %d, workspace %d of minimum %d, aggressive %g] Last is not a permutation: %s", X::nm(), gap, iwlen, pfree + n, ag, vstr(P).c_str());
        for (int k = 0; k < n; k++) REQ(Q[P[k]] == k, "[%s, layout %d, workspace %d of minimum %d, aggressive %g] Next is not the inverse of Last: %s / %s", X::nm(), gap, iwlen, pfree + n, ag, vstr(Q).c_str(), vstr(P).c_str());
        // the output tree: every node leads to a root, the pivots add up
        long sum = 0; for (int i = 0; i < n; i++) { REQ(Nv.a[i] >= 0, "[%s] Nv[%d] is negative on output", X::nm(), i); sum += Nv.a[i]; int x = i, steps = 0; while (x != -1) { REQ(x >= 0 && x < n && steps++ <= n, "[%s] Pe does not hold a forest on output", X::nm()); x = (int) aPe.a[x]; } }
        if (I[AMD_NDENSE] == 0) REQ(sum == n, "[%s] the supernode sizes add up to %ld, not %d", X::nm(), sum, n);
    }
}
static void a01_direct(const Adj &a) { a01_two<I32>(a); a01_two<I64>(a); }

// ------------------------------------------------------------------ A02
template <class X> void a02_call(typename X::T n, bool hasp, const std::vector<typename X::T> &vp, bool hasi, const std::vector<typename X::T> &vi, bool hasP, int want, int want_valid, bool both_ok = false)
{
    typedef typename X::T T; Arr<T> Ap(vp), Ai(vi), P(n > 0 ? (size_t) n : 0, 0x3A); use_tracked();
    int v = X::valid(n, n, hasp ? Ap.a : nullptr, hasi ? Ai.a : nullptr);
    REQ(v == want_valid, "[%s] amd_valid returned %d, expected %d", X::nm(), v, want_valid); mc::step(v + 10);
    for (int inf = 0; inf < 2; inf++) {
        double I[AMD_INFO]; for (double &d : I) d = 12345; uint64_t l0 = xa::live;
        int st = X::order(n, hasp ? Ap.a : nullptr, hasi ? Ai.a : nullptr, hasP ? P.a : nullptr, nullptr, inf ? I : nullptr);
        REQ(st == want || (both_ok && st == AMD_INVALID), "[%s] amd_order returned %d, expected %d", X::nm(), st, want); mc::step(st + 20); mc::trace(); mc::outcome(st == AMD_OK ? 0 : st == AMD_OK_BUT_JUMBLED ? 1 : 4);
        REQ(Ap.same() && Ai.same(), "[%s] the input was changed", X::nm()); REQ(xa::live == l0, "[%s] memory not released", X::nm());
        if (inf) REQ(I[AMD_STATUS] == st, "[%s] Info[AMD_STATUS] is %g after status %d", X::nm(), I[AMD_STATUS], st);
        if (inf && n >= 0) REQ(I[AMD_N] == n, "[%s] Info[AMD_N] is %g for n = %lld", X::nm(), I[AMD_N], (long long) n);
        if (st == AMD_INVALID) { T pat; memset(&pat, 0x3A, sizeof pat); for (T k = 0; k < n; k++) REQ(P.a[k] == pat, "[%s] an invalid input produced a result in P[%lld]", X::nm(), (long long) k); }
        else { std::vector<int> q; for (T k = 0; k < n; k++) q.push_back((int) P.a[k]); REQ(is_perm(q), "[%s] not a permutation", X::nm()); }
        for (T k = 0; k < n; k++) memset(&P.a[k], 0x3A, sizeof(T));
    }
}
static int classify(int m, int n, const std::vector<int> &ap, const std::vector<int> &ai)
{
    if (ap[0] != 0 || ap[n] < 0) return AMD_INVALID; bool jum = false;
    for (int j = 0; j < n; j++) if (ap[j] > ap[j + 1]) return AMD_INVALID;
    for (int j = 0; j < n; j++) for (int p = ap[j]; p < ap[j + 1]; p++) { if (ai[p] < 0 || ai[p] >= m) return AMD_INVALID; if (p > ap[j] && ai[p] <= ai[p - 1]) jum = true; }
    return jum ? AMD_OK_BUT_JUMBLED : AMD_OK;
}
template <class X> void a02_type(int n, const std::vector<int> &ap, const std::vector<int> &ai)
{
    typedef typename X::T T; std::vector<T> p(ap.begin(), ap.end()), i(ai.begin(), ai.end()); int k = classify(n, n, ap, ai);
    a02_call<X>(n, true, p, true, i, true, k, k);
}
// raw input: pointers from [-1, top], entries from [-1, n]; the entries array has exactly Ap[n] elements
static bool raw_decode(int n, int top, uint64_t k, std::vector<int> &ap, std::vector<int> &ai, uint64_t per)
{
    mc::Dec d(k); uint64_t e = d(per); ap.resize(n + 1); for (int j = 0; j <= n; j++) ap[j] = (int) d(top + 2) - 1;
    int nz = std::max(ap[n], 0); if (e >= mc::ipow(n + 2, nz)) return false;
    mc::Dec f(e); ai.resize(nz); for (int &x : ai) x = (int) f(n + 2) - 1; return true;
}
static std::string raw_str(int n, const std::vector<int> &ap, const std::vector<int> &ai) { return mc::fmt("n=%d Ap=[%s] Ai=[%s]", n, vstr(ap).c_str(), vstr(ai).c_str()); }
static void a02_raw(int n, int top)
{
    uint64_t per = mc::ipow(n + 2, top);
    mc::add(mc::fmt("raw-%d", n), per * mc::ipow(top + 2, n + 1), [=](uint64_t k) { std::vector<int> ap, ai; if (!raw_decode(n, top, k, ap, ai, per)) return; a02_type<I32>(n, ap, ai); a02_type<I64>(n, ap, ai); },
            [=](uint64_t k) { std::vector<int> ap, ai; if (!raw_decode(n, top, k, ap, ai, per)) return std::string("(no such array)"); return raw_str(n, ap, ai); });
}
template <class X> void a02_null_type(uint64_t k)
{
    typedef typename X::T T; mc::Dec d(k); int hp = d(2), hi = d(2), hP = d(2), n = (int) d(6) - 2; std::vector<T> p, i; for (int j = 0; j <= std::max(n, 0); j++) p.push_back(j); for (int j = 0; j < n; j++) i.push_back(j);
    bool bad = !hp || !hi || n < 0; a02_call<X>(n, hp, p, hi, i, hP, bad || !hP ? AMD_INVALID : AMD_OK, bad ? AMD_INVALID : AMD_OK);
}
// rectangular patterns are accepted by amd_valid
template <class X> void a02_rect_type(int m, int n, const std::vector<int> &ap, const std::vector<int> &ai)
{
    typedef typename X::T T; std::vector<T> p(ap.begin(), ap.end()), i(ai.begin(), ai.end()); Arr<T> Ap(p), Ai(i);
    int want = classify(m, n, ap, ai), v = X::valid(m, n, Ap.a, Ai.a); mc::step(v); mc::trace(); mc::outcome(v == AMD_OK ? 0 : v == 1 ? 1 : 4);
    REQ(v == want, "[%s] amd_valid for %d rows returned %d, expected %d", X::nm(), m, v, want); REQ(Ap.same() && Ai.same(), "the input was changed");
    REQ(X::valid(-1, n, Ap.a, Ai.a) == AMD_INVALID && X::valid(m, -1, Ap.a, Ai.a) == AMD_INVALID, "[%s] a negative dimension is accepted", X::nm());
}
// one defect at every position of a valid larger pattern
template <class X> void a02_single_type(int n, int t, int lab)
{
    Pat p = present(relabel(structured_graph(t, n), lab), 4); std::vector<int> ap(1, 0), ai; for (auto &c : p.col) { ai.insert(ai.end(), c.begin(), c.end()); ap.push_back((int) ai.size()); }
    a02_type<X>(n, ap, ai);
    for (size_t k = 0; k < ai.size(); k++) for (int v : {-1, n, n + 1, -2147483647 - 1, 2147483647}) { auto b = ai; b[k] = v; a02_type<X>(n, ap, b); }
    for (size_t k = 0; k + 1 < ai.size(); k++) { auto b = ai; std::swap(b[k], b[k + 1]); a02_type<X>(n, ap, b); b = ai; b[k] = b[k + 1]; a02_type<X>(n, ap, b); }
    for (int j = 0; j < n; j++) for (int v : {-1, (int) ai.size() + 1, ap[j] + 1, ap[j] - 1, 2147483647}) { auto b = ap; b[j] = v; a02_type<X>(n, b, ai); }
    { auto b = ap; b[n] = -1; a02_type<X>(n, b, ai); }
}

// ------------------------------------------------------------------ A03, A04
static void a03_check(const char *ty, const Pat &p, const Ctl &c, const Res &r)
{
    int n = p.n; Pat q = p.clean(); Adj a = adj_of(p); const double *I = r.I; std::string w = mc::fmt("[%s, %s]", ty, cstr(c).c_str()); const char *W = w.c_str();
    int nz = q.nz(), diag = 0, both = 0, off = 0, at = 0; std::vector<std::vector<char>> in(n, std::vector<char>(n, 0));
    for (int j = 0; j < n; j++) for (int i : q.col[j]) in[i][j] = 1;
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { if (i == j) diag += in[i][i]; else { off += in[i][j]; both += in[i][j] && in[j][i]; at += in[i][j] || in[j][i]; } }
    double sym = off ? (double) both / off : 1;
    REQ(I[AMD_N] == n, "%s Info[AMD_N] is %g", W, I[AMD_N]);
    REQ(I[AMD_NZ] == nz || I[AMD_NZ] == p.nz(), "%s Info[AMD_NZ] is %g, the pattern has %d entries (%d without duplicates)", W, I[AMD_NZ], p.nz(), nz);
    REQ(fabs(I[AMD_SYMMETRY] - sym) < 1e-12, "%s Info[AMD_SYMMETRY] is %.17g, expected %.17g", W, I[AMD_SYMMETRY], sym);
    REQ(I[AMD_NZDIAG] == diag, "%s Info[AMD_NZDIAG] is %g, expected %d", W, I[AMD_NZDIAG], diag);
    REQ(I[AMD_NZ_A_PLUS_AT] == at, "%s Info[AMD_NZ_A_PLUS_AT] is %g, expected %d", W, I[AMD_NZ_A_PLUS_AT], at);
    double al = c.null ? 10 : c.dense; double thr = al < 0 ? std::max(16, n - 2) : std::max(16.0, al * sqrt((double) n)); int nd = 0; for (int i = 0; i < n; i++) nd += degree(a, i) > thr;
    REQ(I[AMD_NDENSE] == nd || (al < 0 && I[AMD_NDENSE] == 0), "%s Info[AMD_NDENSE] is %g, expected %d", W, I[AMD_NDENSE], nd);
    REQ(I[AMD_MEMORY] > 0 && I[AMD_NCMPA] >= 0, "%s memory %g, garbage collections %g", W, I[AMD_MEMORY], I[AMD_NCMPA]);
    auto cc = colcounts(a, r.P); double lnz = 0, lu = 0, ldl = 0, dm = 0; for (double x : cc) { lnz += x; lu += x * x; ldl += x * (x + 1) / 2; dm = std::max(dm, x + 1); }
    REQ(I[AMD_LNZ] >= lnz && I[AMD_LNZ] <= 0.5 * n * (n - 1.0), "%s Info[AMD_LNZ] is %g; the ordering %s gives %g, a full factor %g", W, I[AMD_LNZ], vstr(r.P).c_str(), lnz, 0.5 * n * (n - 1));
    REQ(I[AMD_NDIV] >= lnz && I[AMD_NDIV] <= 0.5 * n * (n - 1.0), "%s Info[AMD_NDIV] is %g; the ordering gives %g", W, I[AMD_NDIV], lnz);
    REQ(I[AMD_NMULTSUBS_LU] >= lu, "%s Info[AMD_NMULTSUBS_LU] is %g; the ordering gives %g", W, I[AMD_NMULTSUBS_LU], lu);
    REQ(I[AMD_NMULTSUBS_LDL] >= ldl, "%s Info[AMD_NMULTSUBS_LDL] is %g; the ordering gives %g", W, I[AMD_NMULTSUBS_LDL], ldl);
    double flu = 0, fldl = 0; for (double x = 0; x < n; x++) { flu += x * x; fldl += x * (x + 1) / 2; }
    REQ(I[AMD_NMULTSUBS_LU] <= flu && I[AMD_NMULTSUBS_LDL] <= fldl, "%s operation counts %g (LU) and %g (LDL) exceed those of a full matrix", W, I[AMD_NMULTSUBS_LU], I[AMD_NMULTSUBS_LDL]);
    REQ(I[AMD_DMAX] >= dm && I[AMD_DMAX] <= n, "%s Info[AMD_DMAX] is %g; the ordering gives %g", W, I[AMD_DMAX], dm);
    mc::outcome(I[AMD_LNZ] == lnz ? 5 : 6);
    // nothing is estimated: isolated nodes, a full pattern, or dense rows that are full with nothing else between the other rows
    bool exact = nd == 0 && (lnz == 0 || lnz == 0.5 * n * (n - 1));
    if (nd > 0 && I[AMD_NDENSE] == nd) { exact = true; for (int i = 0; i < n && exact; i++) for (int j = 0; j < i; j++) if (a[i][j] != (degree(a, i) > thr || degree(a, j) > thr)) { exact = false; break; } }
    if (exact) REQ(I[AMD_LNZ] == lnz && I[AMD_NDIV] == lnz && I[AMD_NMULTSUBS_LU] == lu && I[AMD_NMULTSUBS_LDL] == ldl && (I[AMD_DMAX] == dm), "%s nothing to estimate: statistics %g %g %g %g %g, true values %g %g %g %g %g", W, I[AMD_LNZ], I[AMD_NDIV], I[AMD_NMULTSUBS_LDL], I[AMD_NMULTSUBS_LU], I[AMD_DMAX], lnz, lnz, ldl, lu, dm);
}
static Pat hubs(uint64_t k)
{
    mc::Dec d(k); int t = d(3), h = d(26), n = 17 + (int) d(24), l = d(4); Adj a(n, std::vector<char>(n, 0));
    for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) a[i][j] = a[j][i] = j < h || (t && i == j + 1 && (t == 1 || (j - h) % 2 == 0));
    return present(relabel(a, l), (int) (k % 5));
}
template <class X> void a03_type(const Pat &p)
{
    for (auto &c : controls(p.n)) { if (!c.info) continue; Res r = order<X>(p, c); REQ(r.st >= 0, "[%s] status %d", X::nm(), r.st); REQ(is_perm(r.P), "[%s] not a permutation", X::nm()); if (p.n) a03_check(X::nm(), p, c, r); mc::trace(); }
}
static void a03(const Pat &p) { a03_type<I32>(p); a03_type<I64>(p); }
// fill that must not happen; want < 0: not constrained
template <class X> void a04_type(const Adj &a, int want)
{
    int n = (int) a.size(); int edges = 0, md = 0; for (int i = 0; i < n; i++) { edges += degree(a, i); md = std::max(md, degree(a, i)); } edges /= 2;
    for (int how : {0, 1, 3}) for (auto &c : controls(n)) {
        Pat p = present(a, how); Res r = order<X>(p, c); req_perm(X::nm(), c, r, p); mc::trace();
        double al = c.null ? 10 : c.dense, thr = al < 0 ? std::max(16, n - 2) : std::max(16.0, al * sqrt((double) n)); std::vector<int> dense; for (int i = 0; i < n; i++) if (degree(a, i) > thr) dense.push_back(i);
        if (dense.empty() && want >= 0) {
            auto cc = colcounts(a, r.P); int l = 0; for (int x : cc) l += x;
            REQ(l - edges == want, "[%s, %s] the ordering %s causes %d fill-in entries, expected %d", X::nm(), cstr(c).c_str(), vstr(r.P).c_str(), l - edges, want); mc::outcome(7);
        } else if (!dense.empty()) {
            std::vector<int> tail(r.P.end() - dense.size(), r.P.end()); std::sort(tail.begin(), tail.end()); mc::outcome(8);
            if (al >= 0) REQ(tail == dense, "[%s, %s] the dense rows (%s) are not ordered last: %s", X::nm(), cstr(c).c_str(), vstr(dense).c_str(), vstr(r.P).c_str());
        }
    }
}
static void a04(const Adj &a, int want) { a04_type<I32>(a, want); a04_type<I64>(a, want); }

// ------------------------------------------------------------------ A05
template <class X> void a05_type(const Pat &p)
{
    typedef typename X::T T; std::vector<T> vp, vi; ap_ai<X>(p, vp, vi); int n = p.n; Pat q = p.clean(); int nz = q.nz();
    for (int fill : {0x00, 0xCD, 0xFF}) {
        Arr<T> Ap(vp), Ai(vi), Rp(n + 1, fill), Ri(nz, fill), W(n, fill), F(n, fill);
        if (!X::pre(n, Ap.a, Ai.a, Rp.a, Ri.a, W.a, F.a)) return;
        std::vector<std::vector<int>> row(n); for (int j = 0; j < n; j++) for (int i : q.col[j]) row[i].push_back(j);
        uint64_t h = 5; REQ(Ap.same() && Ai.same(), "[%s] the input was changed", X::nm()); REQ(Rp.a[0] == 0, "[%s] Rp[0] is not zero", X::nm());
        for (int i = 0; i < n; i++) {
            REQ(Rp.a[i + 1] - Rp.a[i] == (T) row[i].size(), "[%s] column %d of the result has %lld entries, expected %zu", X::nm(), i, (long long) (Rp.a[i + 1] - Rp.a[i]), row[i].size());
            for (size_t k = 0; k < row[i].size(); k++) { REQ(Ri.a[Rp.a[i] + k] == row[i][k], "[%s] entry %zu of column %d of the result is %lld, expected %d", X::nm(), k, i, (long long) Ri.a[Rp.a[i] + k], row[i][k]); h = mc::mix(h, row[i][k] + 100 * i); }
        }
        mc::step(h); mc::trace(); mc::outcome(p.sorted() ? 0 : 1);
    }
}
static void a05(const Pat &p) { a05_type<I32>(p); a05_type<I64>(p); a01_jumbled_type<I32>(p); a01_jumbled_type<I64>(p); }

// ------------------------------------------------------------------ A06
template <class X> void a06_type(const Pat &p)
{
    typedef typename X::T T; std::vector<T> vp, vi; ap_ai<X>(p, vp, vi); int n = p.n; Ctl c; Res good = order<X>(p, c); req_perm(X::nm(), c, good, p);
    for (int mode = 0; mode < 3; mode++) for (int k = 1; k < 20; k++) {
        Arr<T> Ap(vp), Ai(vi), P(n, 0x3A); double C[AMD_CONTROL], C0[AMD_CONTROL], I[AMD_INFO]; X::defaults(C); memcpy(C0, C, sizeof C); for (double &d : I) d = 777;
        xa::fill = 0xCD; use_tracked(); uint64_t l0 = xa::live; if (mode == 0) xa::arm(k); else if (mode == 1) xa::arm_from(k); else xa::arm(k, k + 1);
        int st = X::order(n, Ap.a, Ai.a, P.a, C, mode == 2 ? nullptr : I); uint64_t f = xa::failed; xa::disarm(); mc::step(mc::mix(st, k * 8 + mode)); mc::trace();
        REQ(xa::live == l0, "[%s, allocation %d%s fails] %lld block(s) not released: %s", X::nm(), k, mode == 1 ? " and all later" : mode == 2 ? " and the next" : "", (long long) (xa::live - l0), xa::live_str().c_str());
        REQ(Ap.same() && Ai.same() && !memcmp(C, C0, sizeof C), "[%s, allocation %d fails] the input was changed", X::nm(), k);
        if (mode != 2) REQ(I[AMD_STATUS] == st, "[%s, allocation %d fails] status %d, Info[AMD_STATUS] %g", X::nm(), k, st, I[AMD_STATUS]);
        if (f) { REQ(st == AMD_OUT_OF_MEMORY, "[%s, allocation %d fails] amd_order returned %d", X::nm(), k, st); mc::outcome(9); }
        else { REQ(st == good.st, "[%s] nothing failed, amd_order returned %d", X::nm(), st); for (int j = 0; j < n; j++) REQ((int) P.a[j] == good.P[j], "[%s] the ordering differs", X::nm()); mc::outcome(0); break; }
        Res again = order<X>(p, c); REQ(again.st == good.st && again.P == good.P, "[%s] after a failed call the next one gives another result", X::nm());
        REQ(k < 19, "more than 18 allocations");
    }
}
static void a06(const Pat &p) { a06_type<I32>(p); a06_type<I64>(p); }

// ------------------------------------------------------------------ A07
static void a07_info(const double *a, const double *b, const char *what)
{
    for (int k = 0; k < AMD_INFO; k++) { if (k == AMD_MEMORY) { REQ(b[k] == a[k] * (sizeof(lng) / sizeof(int)) || a[k] == b[k], "%s: Info[AMD_MEMORY] is %g and %g", what, a[k], b[k]); continue; } REQ(a[k] == b[k], "%s: Info[%d] is %g for int and %g for long", what, k, a[k], b[k]); }
}
static void a07_valid(const Pat &p)
{
    for (auto &c : controls(p.n)) { Res r = order<I32>(p, c), s = order<I64>(p, c); mc::trace(); mc::outcome(r.st == 0 ? 0 : 1); REQ(r.st == s.st, "[%s] status %d for int, %d for long", cstr(c).c_str(), r.st, s.st); REQ(r.P == s.P, "[%s] int: %s, long: %s", cstr(c).c_str(), vstr(r.P).c_str(), vstr(s.P).c_str()); if (c.info) a07_info(r.I, s.I, cstr(c).c_str()); }
}
struct CRes { int ok = 0; std::vector<int> p, st; };
template <class T, bool sym, class F> CRes colrun(F f, int m, int n, const std::vector<int> &ap, const std::vector<int> &ai, size_t alen, double *knobs)
{
    CRes r; Arr<T> A(alen, 0x11), p((size_t) n + 1, 0x22); for (size_t k = 0; k < ai.size() && k < alen; k++) A.a[k] = ai[k]; for (int j = 0; j <= n; j++) p.a[j] = ap[j]; T st[COLAMD_STATS]; for (T &x : st) x = 0x33;
    if constexpr (sym) { Arr<T> in(std::vector<T>(ai.begin(), ai.end())); Arr<T> perm((size_t) n + 1, 0x22); r.ok = f(n, in.a, p.a, perm.a, knobs, st); for (int j = 0; j < n; j++) r.p.push_back(r.ok ? (int) perm.a[j] : 0); }
    else { r.ok = f(m, n, (T) alen, A.a, p.a, knobs, st); for (int j = 0; j < n; j++) r.p.push_back(r.ok ? (int) p.a[j] : 0); }
    for (T x : st) r.st.push_back((int) x); return r;
}
static void a07_col(int m, int n, const std::vector<int> &ap, const std::vector<int> &ai, bool valid)
{
    use_tracked();
    for (int kn = 0; kn < 4; kn++) {
        double K[COLAMD_KNOBS]; colamd_set_defaults(K); double KL[COLAMD_KNOBS]; colamd_l_set_defaults(KL); REQ(!memcmp(K, KL, sizeof K), "the default knobs differ");
        if (kn == 1) K[COLAMD_DENSE_ROW] = K[COLAMD_DENSE_COL] = -1; if (kn == 2) K[COLAMD_AGGRESSIVE] = 0; if (kn == 3) K[COLAMD_DENSE_ROW] = K[COLAMD_DENSE_COL] = 0;
        size_t alen = valid ? colamd_recommended((int) ai.size(), m, n) : ai.size() + 100;
        CRes a = colrun<int, false>([](int m, int n, int al, int *A, int *p, double *k, int *s) { return colamd(m, n, al, A, p, k, s); }, m, n, ap, ai, alen, K);
        size_t al = valid ? colamd_l_recommended(ai.size(), m, n) : ai.size() + 100;
        CRes b = colrun<lng, false>([](lng m, lng n, lng al, lng *A, lng *p, double *k, lng *s) { return (int) colamd_l(m, n, al, A, p, k, s); }, m, n, ap, ai, al, K);
        mc::nstep(1); uint64_t h = a.ok; for (int x : a.p) h = mc::mix(h, x); for (int x : a.st) h = mc::mix(h, x); mc::step(h); mc::trace(); mc::outcome(a.ok ? 10 : 11);
        REQ(a.ok == b.ok && a.p == b.p, "[colamd, knobs %d] int: %d, %s; long: %d, %s", kn, a.ok, vstr(a.p).c_str(), b.ok, vstr(b.p).c_str()); REQ(a.st == b.st, "[colamd, knobs %d] stats int: %s; long: %s", kn, vstr(a.st).c_str(), vstr(b.st).c_str());
        if (m != n) continue;
        a = colrun<int, true>([](int n, int *A, int *p, int *perm, double *k, int *s) { return symamd(n, A, p, perm, k, s, xa::xcalloc, xa::xfree); }, n, n, ap, ai, 0, K);
        b = colrun<lng, true>([](lng n, lng *A, lng *p, lng *perm, double *k, lng *s) { return (int) symamd_l(n, A, p, perm, k, s, xa::xcalloc, xa::xfree); }, n, n, ap, ai, 0, K);
        mc::nstep(1); h = a.ok + 5; for (int x : a.p) h = mc::mix(h, x); for (int x : a.st) h = mc::mix(h, x); mc::step(h); mc::trace(); mc::outcome(a.ok ? 10 : 11);
        REQ(a.ok == b.ok && a.p == b.p, "[symamd, knobs %d] int: %d, %s; long: %d, %s", kn, a.ok, vstr(a.p).c_str(), b.ok, vstr(b.p).c_str()); REQ(a.st == b.st, "[symamd, knobs %d] stats int: %s; long: %s", kn, vstr(a.st).c_str(), vstr(b.st).c_str());
    }
}
static void flat(const Pat &p, std::vector<int> &ap, std::vector<int> &ai) { ap.assign(1, 0); ai.clear(); for (auto &c : p.col) { ai.insert(ai.end(), c.begin(), c.end()); ap.push_back((int) ai.size()); } }
static void a07(const Pat &p) { if (p.m == p.n) a07_valid(p); std::vector<int> ap, ai; flat(p, ap, ai); a07_col(p.m, p.n, ap, ai, true); }
static void a07_wide(const Pat &p)
{
    Ctl c; c.null = true; for (int k = 0; k < 2; k++) { Res r = order<I32>(p, c), s = order<I64>(p, c); mc::trace(); mc::outcome(r.st == 0 ? 0 : 1); REQ(r.st == s.st && r.P == s.P, "[%s] status %d for int, %d for long, or the orderings differ", cstr(c).c_str(), r.st, s.st); a07_info(r.I, s.I, "large dimension"); c = Ctl(); c.dense = -1; c.aggr = 0; }
    std::vector<int> ap, ai; flat(p, ap, ai); size_t big = 0; std::vector<size_t> row((size_t) p.m, 0); for (auto &q : p.col) { big = std::max(big, q.size()); for (int r : q) big = std::max(big, ++row[r]); } if (big < 1000) a07_col(p.m, p.n, ap, ai, true);   // with a full row and no dense rows wanted A'A is full
}
template <class X> int raw_status(int n, const std::vector<int> &ap, const std::vector<int> &ai, double *I, std::vector<int> &P)
{
    typedef typename X::T T; Arr<T> Ap(std::vector<T>(ap.begin(), ap.end())), Ai(std::vector<T>(ai.begin(), ai.end())), q((size_t) n, 0); use_tracked(); for (int k = 0; k < AMD_INFO; k++) I[k] = 5;
    int s = X::order(n, Ap.a, Ai.a, q.a, nullptr, I); for (int k = 0; k < n; k++) P.push_back((int) q.a[k]); mc::step(s); return s;
}
static void a07_raw(int n, const std::vector<int> &ap, const std::vector<int> &ai)
{
    double I[AMD_INFO], J[AMD_INFO]; std::vector<int> P, Q; int s = raw_status<I32>(n, ap, ai, I, P), t = raw_status<I64>(n, ap, ai, J, Q); mc::trace(); mc::outcome(s >= 0 ? 0 : 4);
    REQ(s == t && P == Q, "status %d for int, %d for long", s, t); a07_info(I, J, "defective input"); a07_col(n, n, ap, ai, false);
}

// ------------------------------------------------------------------ spaces
static Pat big(uint64_t k, int lo, int cnt, int presn)
{
    mc::Dec d(k); int t = (int) d(NSTRUCT), lab = (int) d(4), how = (int) d(presn), n = lo + (int) d(cnt); return present(relabel(structured_graph(t, n), lab), how);
}
static std::string bigs(uint64_t k, int lo, int cnt, int presn) { mc::Dec d(k); int t = (int) d(NSTRUCT), lab = (int) d(4), how = (int) d(presn), n = lo + (int) d(cnt); return mc::fmt("%s of dimension %d, labelling %d, presentation %d", struct_name(t), n, lab, how); }
static Adj blow(uint64_t k) { mc::Dec d(k); Adj a = graph_bits(4, d(64)); std::vector<int> s; for (int i = 0; i < 4; i++) s.push_back(1 + (int) d(3)); bool cl = d(2); return blowup(a, s, cl); }
static void addf(const GFam &g, std::function<void(const Pat &)> f) { mc::add(g.name, g.n, [g, f](uint64_t k) { f(g.get(k)); }, [g](uint64_t k) { return g.get(k).str(); }); }
static void add_big(int lo, int cnt, int presn, std::function<void(const Pat &)> f) { mc::add(mc::fmt("structured-%d-to-%d", lo, lo + cnt - 1), (uint64_t) NSTRUCT * 4 * presn * cnt, [=](uint64_t k) { f(big(k, lo, cnt, presn)); }, [=](uint64_t k) { return bigs(k, lo, cnt, presn); }); }
static void add_blow(std::function<void(const Pat &)> f) { mc::add("blown-up-4-node-graphs", 64 * 81 * 2, [=](uint64_t k) { f(present(blow(k), (int) (k % 5))); }, [](uint64_t k) { return present(blow(k), (int) (k % 5)).str(); }); }
static void graphs_all(bool th, std::function<void(const Pat &)> f)
{
    for (int n = 0; n <= (th ? 4 : 3); n++) addf(all_patterns(n, n), f);
    if (!th) addf({"4x4-patterns-without-diagonal", 4096, [](uint64_t k) { Pat p(4, 4); int b = 0; for (int j = 0; j < 4; j++) for (int i = 0; i < 4; i++) if (i != j && k >> b++ & 1) p.col[j].push_back(i); return p; }}, f);
    if (th) for (int how : {0, 1, 3}) addf(all_graphs(6, how), f); else addf(all_graphs(5, 1), f);
    if (th) addf(all_graphs(7, 2), f); else addf(all_graphs(6, 1), f);
    addf(all_lists(2, 2, 3), f); addf(all_lists(3, 3, 2), f); if (th) addf(all_lists(3, 3, 3), f);
    add_big(5, th ? 36 : 12, th ? 5 : 2, f); add_big(17, 24, 1, f); add_blow(f);
    add_ladder(th, "structured-48-and-more", [f](const Adj &a, int t) { f(present(a, t % 5)); });
}
// ------------------------------------------------------------------ more nodes than 16 bits count
typedef std::vector<std::pair<int, int>> Edges;
static std::vector<Ctl> wide_controls() { std::vector<Ctl> v(3); v[0].null = true; v[1].aggr = 0; v[1].fill = 0xFF; v[2].dense = -1; v[2].fill = 0; return v; }
template <class X> void wide_type(const std::string &prop, const Pat &p, const Edges &E, int t)
{
    int n = p.n; std::vector<int> deg(n, 0); { std::set<std::pair<int, int>> s; for (auto &e : E) if (s.insert({std::min(e.first, e.second), std::max(e.first, e.second)}).second) { deg[e.first]++; deg[e.second]++; } }
    long edges = 0; for (int d : deg) edges += d; edges /= 2; Pat q = p.clean(); long nz = 0, raw = 0, diag = 0, off = 0; for (int j = 0; j < n; j++) { raw += p.col[j].size(); nz += q.col[j].size(); for (int i : q.col[j]) (i == j ? diag : off)++; }
    for (auto &c : wide_controls()) {
        Res r = order<X>(p, c); mc::trace(); std::string w = mc::fmt("%s, %s", X::nm(), cstr(c).c_str()); int want = p.sorted() ? AMD_OK : AMD_OK_BUT_JUMBLED;
        REQ(r.st == want && is_perm(r.P), "[%s] amd_order returned %d, expected %d, or the result is not a permutation", w.c_str(), r.st, want); mc::outcome(r.st == AMD_OK ? 0 : 1);
        double al = c.null ? 10 : c.dense, thr = al < 0 ? std::max(16, n - 2) : std::max(16.0, al * sqrt((double) n)); std::vector<int> dense; for (int i = 0; i < n; i++) if (deg[i] > thr) dense.push_back(i);
        if (prop == "A04") {
            if (t <= 3) { int ml = most_later(n, E, r.P); REQ(ml <= 1, "[%s] the ordering causes fill-in: %d neighbours follow a node of a forest", w.c_str(), ml); mc::outcome(7); }
            if (!dense.empty() && al >= 0) { std::vector<int> tail(r.P.end() - dense.size(), r.P.end()); std::sort(tail.begin(), tail.end()); REQ(tail == dense, "[%s] the dense rows are not ordered last", w.c_str()); mc::outcome(8); }
        }
        if (prop == "A03") {
            const double *I = r.I; long both = 2 * (off - edges); double sym = off ? (double) both / off : 1;
            REQ(I[AMD_N] == n && (I[AMD_NZ] == nz || I[AMD_NZ] == raw) && I[AMD_NZDIAG] == diag && I[AMD_NZ_A_PLUS_AT] == 2 * edges && fabs(I[AMD_SYMMETRY] - sym) < 1e-12, "[%s] N %g NZ %g NZDIAG %g NZ_A_PLUS_AT %g SYMMETRY %.17g, expected %d %ld %ld %ld %.17g", w.c_str(), I[AMD_N], I[AMD_NZ], I[AMD_NZDIAG], I[AMD_NZ_A_PLUS_AT], I[AMD_SYMMETRY], n, nz, diag, 2 * edges, sym);
            REQ(I[AMD_NDENSE] == (double) dense.size() || (al < 0 && I[AMD_NDENSE] == 0), "[%s] Info[AMD_NDENSE] is %g, expected %zu", w.c_str(), I[AMD_NDENSE], dense.size());
            double top = 0.5 * n * (n - 1.0); REQ(I[AMD_LNZ] >= edges && I[AMD_LNZ] <= top && I[AMD_NDIV] >= edges && I[AMD_NDIV] <= top && I[AMD_NMULTSUBS_LDL] >= edges && I[AMD_NMULTSUBS_LU] >= edges && I[AMD_DMAX] >= 1 && I[AMD_DMAX] <= n && I[AMD_MEMORY] > 0 && I[AMD_NCMPA] >= 0, "[%s] LNZ %g NDIV %g LDL %g LU %g DMAX %g MEMORY %g NCMPA %g for %ld edges", w.c_str(), I[AMD_LNZ], I[AMD_NDIV], I[AMD_NMULTSUBS_LDL], I[AMD_NMULTSUBS_LU], I[AMD_DMAX], I[AMD_MEMORY], I[AMD_NCMPA], edges);
            if (t == 0) REQ(I[AMD_LNZ] == 0 && I[AMD_NDIV] == 0 && I[AMD_NMULTSUBS_LDL] == 0 && I[AMD_NMULTSUBS_LU] == 0 && I[AMD_DMAX] == 1, "[%s] statistics of a diagonal pattern: %g %g %g %g %g", w.c_str(), I[AMD_LNZ], I[AMD_NDIV], I[AMD_NMULTSUBS_LDL], I[AMD_NMULTSUBS_LU], I[AMD_DMAX]);
            mc::outcome(I[AMD_LNZ] == edges ? 5 : 6);
        }
    }
}
static void wide_two(const std::string &P, const Pat &p, const Edges &E, int t) { wide_type<I32>(P, p, E, t); wide_type<I64>(P, p, E, t); }
template <class X> void wide_defect(const Pat &p)
{
    std::vector<int> ap(1, 0), ai; for (auto &c : p.col) { ai.insert(ai.end(), c.begin(), c.end()); ap.push_back((int) ai.size()); } int n = p.n; auto call = [&](const std::vector<int> &a, const std::vector<int> &b) { typedef typename X::T T; std::vector<T> tp(a.begin(), a.end()), ti(b.begin(), b.end()); int v = classify(n, n, a, b); a02_call<X>(n, true, tp, true, ti, true, v, v); };
    call(ap, ai); if (!ai.empty()) for (size_t k : {(size_t) 0, std::min(ai.size() - 1, (size_t) 65536), ai.size() - 1}) { for (int v : {-1, n}) { auto b = ai; b[k] = v; call(ap, b); } auto b = ai; b[k] = k ? b[k - 1] : b[k]; call(ap, b); }
    for (int j : {0, 65536, n - 1}) for (int v : {-1, ap[j + 1] + 1}) { auto b = ap; b[j] = v; call(b, ai); }
}
void mc::register_spaces(const std::string &P, bool th)
{
    mc::outcome_name(0, "ordered"); mc::outcome_name(1, "ordered, unsorted input"); mc::outcome_name(2, "workspace sufficed"); mc::outcome_name(3, "workspace compacted"); mc::outcome_name(4, "invalid");
    mc::outcome_name(5, "estimate exact"); mc::outcome_name(6, "estimate above"); mc::outcome_name(7, "fill compared"); mc::outcome_name(8, "dense rows"); mc::outcome_name(9, "out of memory"); mc::outcome_name(10, "colamd ordered"); mc::outcome_name(11, "colamd refused");
    if (P == "A01" || P == "A03" || P == "A04") add_wide(th, [P](const Pat &p, const Edges &E, int t) { wide_two(P, p, E, t); });
    if (P == "A02") add_wide(th, [](const Pat &p, const Edges &, int) { wide_defect<I32>(p); wide_defect<I64>(p); });
    if (P == "A05") add_wide(th, [](const Pat &p, const Edges &, int) { a05(p); });
    if (P == "A06") add_wide(th, [](const Pat &p, const Edges &, int) { a06(p); });
    if (P == "A07") add_wide(th, [](const Pat &p, const Edges &, int) { a07_wide(p); });
    if (P == "A01") {
        auto jum = [](GFam g) { g.name = "all-presentations-" + g.name; addf(g, a01_jumbled); };
        jum(all_lists(2, 2, 4)); jum(all_lists(3, 3, th ? 3 : 2)); jum(all_lists(1, 1, 6));
        addf({"4x4-permuted-columns", 64 * 24 * 24, [](uint64_t k) { mc::Dec d(k); Pat p = present(graph_bits(4, d(64)), 4); auto sh = [](std::vector<int> &c, uint64_t r) { for (size_t i = c.size(); i > 1; i--) { std::swap(c[i - 1], c[r % i]); r /= i; } }; uint64_t a = d(24), b = d(24); sh(p.col[0], a); sh(p.col[2], b); sh(p.col[1], (a + b) % 24); return p; }}, a01_jumbled);
        graphs_all(th, a01);
        for (int n = 2; n <= (th ? 7 : 6); n++) mc::add(mc::fmt("direct-graphs-%d", n), 1ull << (n * (n - 1) / 2), [n](uint64_t k) { a01_direct(graph_bits(n, k)); }, [n](uint64_t k) { return present(graph_bits(n, k), 1).str(); });
        mc::add("direct-structured", NSTRUCT * 4 * 36, [](uint64_t k) { a01_direct(adj_of(big(k, 5, 36, 1))); }, [](uint64_t k) { return bigs(k, 5, 36, 1); });
        add_ladder(th, "direct-structured-48-and-more", [](const Adj &a, int) { a01_direct(a); });
        mc::add("direct-blown-up", 64 * 81 * 2, [](uint64_t k) { a01_direct(blow(k)); }, [](uint64_t k) { return present(blow(k), 1).str(); });
        for (int n : {8, 9}) mc::add(mc::fmt("direct-grid-and-%d-extra", n), (uint64_t) n * n * n * n, [n](uint64_t k) { mc::Dec d(k); Adj a = structured_graph(5, n); for (int q = 0; q < 2; q++) { int i = d(n), j = d(n); if (i != j) a[i][j] = a[j][i] = 1; } a01_direct(a); }, [n](uint64_t k) { return mc::fmt("grid of %d nodes and two more edges, number %llu", n, (unsigned long long) k); });
    } else if (P == "A02") {
        mc::assume("an array is as large as the last column pointer says; dimensions so large that the arrays cannot exist here are not tried");
        a02_raw(1, 5); a02_raw(2, 3); if (th) { a02_raw(2, 5); a02_raw(3, 4); } else a02_raw(3, 3);
        mc::add("null-arguments", 2 * 2 * 2 * 6, [](uint64_t k) { a02_null_type<I32>(k); a02_null_type<I64>(k); }, [](uint64_t k) { mc::Dec d(k); int a = d(2), b = d(2), c = d(2), n = (int) d(6) - 2; return mc::fmt("n=%d%s%s%s", n, a ? "" : ", Ap NULL", b ? "" : ", Ai NULL", c ? "" : ", P NULL"); });
        for (int m = 0; m <= 3; m++) for (int n = 0; n <= 3; n++) { if (m == n) continue; int top = 3; uint64_t per = mc::ipow(n + 2, top);
            mc::add(mc::fmt("rectangular-%dx%d", m, n), per * mc::ipow(top + 2, n + 1), [=](uint64_t k) { std::vector<int> ap, ai; if (!raw_decode(n, top, k, ap, ai, per)) return; a02_rect_type<I32>(m, n, ap, ai); a02_rect_type<I64>(m, n, ap, ai); }, [=](uint64_t k) { std::vector<int> ap, ai; if (!raw_decode(n, top, k, ap, ai, per)) return std::string("(no such array)"); return raw_str(n, ap, ai); }); }
        mc::add("one-defect", NSTRUCT * 4 * (th ? 16 : 6), [](uint64_t k) { mc::Dec d(k); int t = d(NSTRUCT), l = d(4), n = 3 + (int) d(16); a02_single_type<I32>(n, t, l); a02_single_type<I64>(n, t, l); }, [](uint64_t k) { mc::Dec d(k); int t = d(NSTRUCT), l = d(4), n = 3 + (int) d(16); return mc::fmt("%s of dimension %d, labelling %d, every single defect", struct_name(t), n, l); });
    } else if (P == "A03") {
        graphs_all(th, a03);
        // k full rows and columns, and between the others nothing, a path or a matching
        mc::add("full-rows", 3 * 26 * 24 * 4, [](uint64_t k) { a03(hubs(k)); }, [](uint64_t k) { return hubs(k).str(); });
    }
    else if (P == "A04") {
        int nf = th ? 9 : 7;
        for (int n = 1; n <= nf; n++) for (int l = 0; l < (n <= (th ? 8 : 7) ? 3 : 1); l++) mc::add(mc::fmt("forests-%d-labelled-%d", n, l), factorial(n), [n, l](uint64_t k) { a04(forest(n, k, l), 0); }, [n, l](uint64_t k) { return present(forest(n, k, l), 1).str(); });
        mc::add("forests-larger", 4 * 4 * 45, [](uint64_t k) { mc::Dec d(k); static const int T[4] = {0, 2, 7, 8}; int t = T[d(4)], l = d(4), n = 8 + (int) d(45); a04(relabel(structured_graph(t, n), l), t == 2 && n > 17 ? -1 : 0); }, [](uint64_t k) { mc::Dec d(k); static const int T[4] = {0, 2, 7, 8}; int t = T[d(4)], l = d(4), n = 8 + (int) d(45); return mc::fmt("%s of dimension %d, labelling %d", struct_name(t), n, l); });
        int nb = th ? 9 : 8;   // disjoint unions of cliques: restricted growth strings
        mc::add(mc::fmt("clique-unions-%d", nb), factorial(nb), [nb](uint64_t k) { mc::Dec d(k); std::vector<int> b(nb); int mx = 0; for (int i = 0; i < nb; i++) { b[i] = (int) d(i + 1); if (b[i] > mx) return; if (b[i] == mx) mx++; } Adj a(nb, std::vector<char>(nb, 0)); for (int i = 0; i < nb; i++) for (int j = 0; j < nb; j++) a[i][j] = i != j && b[i] == b[j]; a04(a, 0); }, [](uint64_t k) { return mc::fmt("set partition number %llu", (unsigned long long) k); });
        mc::add("cycles", 4 * 40, [](uint64_t k) { mc::Dec d(k); int l = d(4), n = 3 + (int) d(40); a04(relabel(structured_graph(1, n), l), n - 3); }, [](uint64_t k) { mc::Dec d(k); int l = d(4), n = 3 + (int) d(40); return mc::fmt("cycle of %d nodes, labelling %d", n, l); });
        add_ladder(th, "structured-48-and-more", [](const Adj &a, int t) { a04(a, t == 0 || t == 7 || t == 8 ? 0 : t == 1 ? (int) a.size() - 3 : -1); });
        mc::add("complete", 24, [](uint64_t k) { a04(structured_graph(3, (int) k + 1), k + 1 > 17 ? -1 : 0); }, [](uint64_t k) { return mc::fmt("complete graph of %d nodes", (int) k + 1); });
        mc::add("dense-rows", NSTRUCT * 4 * 24, [](uint64_t k) { a04(adj_of(big(k, 17, 24, 1)), -1); }, [](uint64_t k) { return bigs(k, 17, 24, 1); });
        mc::add("dense-hubs", 24 * 30 * 4, [](uint64_t k) { mc::Dec d(k); int deg = 12 + (int) d(24), n = 14 + (int) d(30), h = (int) d(4); Adj a = structured_graph(h & 1, n); for (int q = 0; q <= h / 2; q++) for (int i = 0; i < std::min(deg, n); i++) { int c = q ? n / 2 : n - 1, x = (i + q) % n; if (x != c) a[c][x] = a[x][c] = 1; } a04(a, -1); }, [](uint64_t k) { mc::Dec d(k); int deg = 12 + (int) d(24), n = 14 + (int) d(30), h = (int) d(4); return mc::fmt("%s of %d nodes and hubs of degree %d (variant %d)", h & 1 ? "cycle" : "path", n, deg, h); });
    } else if (P == "A05") {
        for (int n = 0; n <= 4; n++) addf(all_patterns(n, n), a05);
        addf(all_lists(1, 1, 6), a05); addf(all_lists(2, 2, 5), a05); addf(all_lists(3, 3, th ? 4 : 3), a05); if (th) addf(all_lists(4, 4, 2), a05);
        add_big(5, 20, 5, a05);
        add_ladder(th, "structured-jumbled-48-and-more", [](const Adj &a, int t) { Pat p = present(a, t % 5); for (auto &c : p.col) { std::reverse(c.begin(), c.end()); size_t s = c.size(); for (size_t i = 0; i < s; i += 2) c.push_back(c[i]); } a05(p); });
        mc::add("structured-jumbled", NSTRUCT * 4 * 20, [](uint64_t k) { Pat p = big(k, 5, 20, 1); for (auto &c : p.col) { std::reverse(c.begin(), c.end()); size_t s = c.size(); for (size_t i = 0; i < s; i += 2) c.push_back(c[i]); } a05(p); }, [](uint64_t k) { return bigs(k, 5, 20, 1) + ", columns reversed, every other entry twice"; });
    } else if (P == "A06") {
        for (int n = 0; n <= 3; n++) addf(all_patterns(n, n), a06); if (th) addf(all_patterns(4, 4), a06);
        addf(all_lists(2, 2, 3), a06); addf(all_lists(3, 3, 2), a06); add_big(5, th ? 36 : 20, 2, a06); add_ladder(th, "structured-48-and-more", [](const Adj &a, int t) { a06(present(a, t % 5)); });
        mc::add("structured-jumbled", NSTRUCT * 4 * 20, [](uint64_t k) { Pat p = big(k, 5, 20, 1); for (auto &c : p.col) { std::reverse(c.begin(), c.end()); size_t s = c.size(); for (size_t i = 0; i < s; i += 2) c.push_back(c[i]); } a06(p); }, [](uint64_t k) { return bigs(k, 5, 20, 1) + ", columns reversed, every other entry twice"; });
    } else if (P == "A07") {
        graphs_all(th, a07);
        for (int m = 0; m <= 4; m++) for (int n = 0; n <= 4; n++) if (m != n && m * n <= 12) addf(all_patterns(m, n), a07);
        addf(all_lists(2, 3, 2), a07);
        for (int n = 1; n <= 3; n++) { int top = n == 3 ? 2 : 3; uint64_t per = mc::ipow(n + 2, top); mc::add(mc::fmt("raw-%d", n), per * mc::ipow(top + 2, n + 1), [=](uint64_t k) { std::vector<int> ap, ai; if (!raw_decode(n, top, k, ap, ai, per)) return; a07_raw(n, ap, ai); }, [=](uint64_t k) { std::vector<int> ap, ai; if (!raw_decode(n, top, k, ap, ai, per)) return std::string("(no such array)"); return raw_str(n, ap, ai); }); }
    }
}
