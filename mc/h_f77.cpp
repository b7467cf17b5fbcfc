// h_f77: A08, the Fortran ordering routines, called with workspace arrays of exactly the given size
#include "slipx.h"
#include "graphs.h"
#include <memory>
#include <numeric>
typedef void (*ford)(int *n, int *pe, int *iw, int *len, int *iwlen, int *pfree, int *nv, int *next, int *last, int *head, int *elen, int *degree, int *ncmpa, int *w);
extern "C" {
void amd_(int *, int *, int *, int *, int *, int *, int *, int *, int *, int *, int *, int *, int *, int *);
void amdbar_(int *, int *, int *, int *, int *, int *, int *, int *, int *, int *, int *, int *, int *, int *);
}
struct IArr { std::unique_ptr<int[]> a; IArr(size_t n, int v = 0x5CCCCCCC) : a(new int[n ? n : 1]) { for (size_t i = 0; i < n; i++) a[i] = v; } IArr(const std::vector<int> &v) : IArr(v.size()) { for (size_t i = 0; i < v.size(); i++) a[i] = v[i]; } int *p() { return a.get(); } int operator[](int i) const { return a[i]; } };
static std::string vstr(const std::vector<int> &v) { std::string s; for (int x : v) s += mc::fmt("%s%d", s.empty() ? "" : " ", x); return s; }
struct Out { std::vector<int> last, pe, nv; int pfree, ncmpa; };
static int sum(const std::vector<int> &v) { return std::accumulate(v.begin(), v.end(), 0); }
// layout 0: rows in order, without space between them; 1: rows in reverse, columns in reverse; 2: odd rows first, with space after each row
static Out run(ford f, const char *nm, const Adj &a, int layout, int extra, const char *where)
{
    int n = (int) a.size(); std::vector<int> pe(n, 0), len(n), iw, rows; char wb[160];
    for (int i = 0; i < n; i++) rows.push_back(layout == 1 ? n - 1 - i : i);
    if (layout == 2) std::stable_partition(rows.begin(), rows.end(), [](int i) { return i & 1; });
    for (int i : rows) {
        len[i] = degree(a, i); pe[i] = len[i] ? (int) iw.size() + 1 : layout == 1 ? 77777 : 0; // the start of an empty row is ignored
        for (int k = 0; k < n; k++) { int j = layout == 1 ? n - 1 - k : k; if (a[i][j]) iw.push_back(j + 1); }
        if (layout == 2) iw.push_back(i & 2 ? -1 - i : -99999);
    }
    int pfree0 = (int) iw.size() + 1, iwlen = pfree0 - 1 + extra; iw.resize(iwlen, 0x5CCCCCCC);
    snprintf(wb, sizeof wb, "[%s, layout %d, iwlen = pfree%+d%s]", nm, layout, extra - 1, where);
    IArr Pe(pe), Len(len), Iw(iw), Nv(n), Nx(n), La(n), He(n), El(n), De(n), W(n); Out o; o.pfree = pfree0; o.ncmpa = -1; int n1 = n, il = iwlen;
    f(&n1, Pe.p(), Iw.p(), Len.p(), &il, &o.pfree, Nv.p(), Nx.p(), La.p(), He.p(), El.p(), De.p(), &o.ncmpa, W.p());
    REQ(n1 == n && il == iwlen, "%s n or iwlen was changed", wb);
    std::vector<char> seen(n, 0); uint64_t h = o.ncmpa;
    for (int k = 0; k < n; k++) { int i = La[k]; REQ(i >= 1 && i <= n && !seen[i - 1], "%s LAST is not a permutation: position %d holds %d", wb, k + 1, i); seen[i - 1] = 1; o.last.push_back(i - 1); h = mc::mix(h, i); }
    for (int k = 0; k < n; k++) REQ(El[o.last[k]] == k + 1, "%s ELEN(%d) is %d, but that row is pivot %d", wb, o.last[k] + 1, El[o.last[k]], k + 1);
    mc::step(h); mc::trace(); mc::outcome(o.ncmpa > 0 ? 1 : 0);
    REQ(o.ncmpa >= 0, "%s NCMPA is %d", wb, o.ncmpa);
    if (o.ncmpa == 0) REQ(o.pfree <= iwlen + 1, "%s no compressions, but PFREE is %d", wb, o.pfree); else REQ(o.pfree > iwlen, "%s %d compressions, but PFREE is %d", wb, o.ncmpa, o.pfree);
    for (int i = 0; i < n; i++) {
        REQ(Pe[i] <= 0 && -Pe[i] <= n && -Pe[i] != i + 1, "%s PE(%d) is %d on output", wb, i + 1, Pe[i]); REQ(Nv[i] >= 0 && Nv[i] <= n, "%s NV(%d) is %d on output", wb, i + 1, Nv[i]);
        o.pe.push_back(-Pe[i] - 1); o.nv.push_back(Nv[i]);
    }
    for (int i = 0; i < n; i++) { int x = i, s = 0; while (x >= 0) { REQ(s++ <= n, "%s PE holds a cycle on output", wb); x = o.pe[x]; } }
    // the size of every element at the time it was created
    auto cc = colcounts(a, o.last); std::vector<int> own(n); std::vector<std::vector<int>> grp(n);
    for (int i = 0; i < n; i++) { int x = i, s = 0; while (x >= 0 && o.nv[x] == 0 && s++ <= n) x = o.pe[x]; REQ(x >= 0, "%s variable %d belongs to no element", wb, i + 1); own[i] = x; }
    for (int k = 0; k < n; k++) grp[own[o.last[k]]].push_back(k);
    for (int e = 0; e < n; e++) if (o.nv[e]) {
        int k0 = grp[e][0], sz = (int) grp[e].size();
        for (int t = 0; t < sz; t++) REQ(grp[e][t] == k0 + t, "%s the pivots of element %d are not consecutive in %s", wb, e + 1, vstr(o.last).c_str());
        REQ(cc[k0 + sz - 1] + sz == o.nv[e], "%s NV(%d) is %d, the element had degree %d when it was created (order %s)", wb, e + 1, o.nv[e], cc[k0 + sz - 1] + sz, vstr(o.last).c_str());
        if (o.pe[e] >= 0 && cc[k0 + sz - 1] > 0) { // the parent holds the next pivot of the remaining pattern
            int par = own[o.pe[e]]; REQ(grp[par][0] > k0, "%s the parent of element %d is eliminated before it", wb, e + 1);
        }
    }
    // a depth-first order of the tree gives the same fill-in: the nodes of the tree in any order of siblings, the pivots of a node in the returned order
    std::vector<std::vector<int>> kid(n); std::vector<int> roots, post; for (int i = 0; i < n; i++) if (o.nv[i]) (o.pe[i] >= 0 ? kid[own[o.pe[i]]] : roots).push_back(i);
    std::function<void(int)> dfs = [&](int x) { for (int c : kid[x]) dfs(c); for (int k : grp[x]) post.push_back(o.last[k]); };
    for (int rev = 0; rev < 2; rev++) {
        post.clear(); for (int r : roots) dfs(r); int l0 = sum(cc), l1 = (int) post.size() == n ? sum(colcounts(a, post)) : -1;
        REQ(l0 == l1, "%s a depth-first order of the output tree gives %d factor entries, LAST gives %d", wb, l1, l0);
        std::reverse(roots.begin(), roots.end()); for (auto &k : kid) std::reverse(k.begin(), k.end());
    }
    return o;
}
static void graph(const Adj &a, int fill, bool every)
{
    int n = (int) a.size(); if (n == 0) return; int edges = 0; for (int i = 0; i < n; i++) edges += degree(a, i); edges /= 2;
    for (int v = 0; v < 2; v++) {
        ford f = v ? amdbar_ : amd_; const char *nm = v ? "AMDBAR" : "AMD";
        for (int layout = 0; layout < 3; layout++) {
            std::vector<int> base; std::set<int> ex; ex.insert(0); for (int x = 0; x <= n + 1; x++) if (every || x < 4 || x == n) ex.insert(x); ex.insert(edges / 2 + 1); ex.insert(2 * edges + n);
            for (int x : ex) {
                Out o = run(f, nm, a, layout, x, "");
                if (base.empty()) base = o.last; REQ(o.last == base, "[%s, layout %d] the order depends on the workspace: %s with iwlen = pfree%+d, %s with the minimum", nm, layout, vstr(o.last).c_str(), x - 1, vstr(base).c_str());
                if (x == 0) { int pf = 1; for (int i = 0; i < n; i++) pf += degree(a, i) + (layout == 2 ? 1 : 0); int need = o.pfree - (pf - 1); if (need >= 0) { Out q = run(f, nm, a, layout, need, ", the size returned as PFREE"); REQ(q.ncmpa == 0, "[%s, layout %d] %d compressions with the workspace size that should need none", nm, layout, q.ncmpa); REQ(q.last == base, "[%s, layout %d] the order depends on the workspace", nm, layout); } }
            }
            if (fill >= 0) { int l = sum(colcounts(a, base)) - edges; REQ(l == fill, "[%s, layout %d] the order %s causes %d fill-in entries, expected %d", nm, layout, vstr(base).c_str(), l, fill); mc::outcome(2); }
        }
    }
}
// dimensions beyond 16 bits: order, inverse and tree by sparse means
static void wide(uint64_t k)
{
    mc::Dec d(k); int t = (int) d(6), lab = (int) d(3); if (t == 5) t = 6; auto E = wide_edges(t, lab); const int n = WIDE_N; std::vector<std::vector<int>> adj(n); for (auto &e : E) if (e.first != e.second) { adj[e.first].push_back(e.second); adj[e.second].push_back(e.first); }
    std::vector<int> pe(n), len(n), iw; for (int i = 0; i < n; i++) { auto &v = adj[i]; std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); len[i] = (int) v.size(); pe[i] = len[i] ? (int) iw.size() + 1 : 0; for (int j : v) iw.push_back(j + 1); }
    for (int v = 0; v < 2; v++) {
        ford f = v ? amdbar_ : amd_; const char *nm = v ? "AMDBAR" : "AMD"; std::vector<int> base;
        for (int extra : {0, 1, n}) {
            std::vector<int> w = iw; w.resize(iw.size() + extra, 0x5CCCCCCC); int n1 = n, il = (int) w.size(), pf = (int) iw.size() + 1, nc = -1; IArr Pe(pe), Len(len), Iw(w), Nv(n), Nx(n), La(n), He(n), El(n), De(n), W(n);
            f(&n1, Pe.p(), Iw.p(), Len.p(), &il, &pf, Nv.p(), Nx.p(), La.p(), He.p(), El.p(), De.p(), &nc, W.p()); REQ(n1 == n && il == (int) w.size() && nc >= 0, "[%s] n or iwlen was changed, or NCMPA is %d", nm, nc);
            std::vector<int> last; std::vector<char> seen(n, 0); for (int i = 0; i < n; i++) { int x = La[i]; REQ(x >= 1 && x <= n && !seen[x - 1], "[%s] LAST is not a permutation: position %d holds %d", nm, i + 1, x); seen[x - 1] = 1; last.push_back(x - 1); REQ(El[x - 1] == i + 1, "[%s] ELEN(%d) is %d, but that row is pivot %d", nm, x, El[x - 1], i + 1); }
            if (base.empty()) base = last; REQ(last == base, "[%s] the order depends on the workspace", nm); mc::step(mc::hbytes(v, last.data(), last.size() * sizeof(int))); mc::trace(); mc::outcome(nc > 0 ? 1 : 0);
            long top = 0; for (int i = 0; i < n; i++) { REQ(Pe[i] <= 0 && -Pe[i] <= n && -Pe[i] != i + 1 && Nv[i] >= 0 && Nv[i] <= n, "[%s] PE(%d) is %d, NV(%d) is %d on output", nm, i + 1, Pe[i], i + 1, Nv[i]); if (Pe[i]) { int p = -Pe[i] - 1; if (Nv[i]) REQ(El[p] > El[i] || Nv[p] == 0, "[%s] the parent of element %d is eliminated before it", nm, i + 1); } top += Nv[i] > 0; } REQ(top > 0, "[%s] no elements", nm);
        }
        if (t <= 3) { int ml = most_later(n, E, base); REQ(ml <= 1, "[%s] the order causes fill-in: %d neighbours follow a node of a forest", nm, ml); mc::outcome(2); }
    }
}
static Adj sg(uint64_t k, int lo, int cnt) { mc::Dec d(k); int t = (int) d(NSTRUCT), l = (int) d(4), n = lo + (int) d(cnt); return relabel(structured_graph(t, n), l); }
static std::string sgs(uint64_t k, int lo, int cnt) { mc::Dec d(k); int t = (int) d(NSTRUCT), l = (int) d(4), n = lo + (int) d(cnt); return mc::fmt("%s of dimension %d, labelling %d", struct_name(t), n, l); }
static Adj blow(uint64_t k, int nn) { mc::Dec d(k); Adj a = graph_bits(nn, d(1ull << (nn * (nn - 1) / 2))); std::vector<int> s; for (int i = 0; i < nn; i++) s.push_back(1 + (int) d(3)); bool cl = d(2); return blowup(a, s, cl); }
void mc::register_spaces(const std::string &, bool th)
{
    mc::outcome_name(0, "ordered without compression"); mc::outcome_name(1, "workspace compressed"); mc::outcome_name(2, "fill compared");
    mc::assume("the pattern handed over is symmetric and free of diagonal entries (the routines do not check); workspaces hold arbitrary values");
    mc::add("beyond-16-bits", 6 * 3, wide, [](uint64_t k) { int t = (int) (k % 6); return mc::fmt("%s of %d nodes, labelling %d", wide_name(t == 5 ? 6 : t), (int) WIDE_N, (int) (k / 6)); });
    for (int n = 1; n <= (th ? 7 : 6); n++) mc::add(mc::fmt("graphs-%d", n), 1ull << (n * (n - 1) / 2), [n](uint64_t k) { graph(graph_bits(n, k), -1, true); }, [n](uint64_t k) { return present(graph_bits(n, k), 1).str(); });
    for (int n = 2; n <= (th ? 9 : 7); n++) for (int l = 0; l < (n < 9 ? 3 : 1); l++) mc::add(mc::fmt("forests-%d-labelled-%d", n, l), factorial(n), [n, l](uint64_t k) { graph(forest(n, k, l), 0, false); }, [n, l](uint64_t k) { return present(forest(n, k, l), 1).str(); });
    int c1 = th ? 44 : 20; mc::add("structured", (uint64_t) NSTRUCT * 4 * c1, [=](uint64_t k) { graph(sg(k, 5, c1), -1, true); }, [=](uint64_t k) { return sgs(k, 5, c1); });
    mc::add("structured-large", NSTRUCT * 4 * (th ? 30 : 6), [=](uint64_t k) { graph(sg(k, 50, th ? 30 : 6), -1, false); }, [=](uint64_t k) { return sgs(k, 50, th ? 30 : 6); });
    add_ladder(th, "structured-48-and-more", [](const Adj &a, int t) { graph(a, t == 0 || t == 2 || t == 7 || t == 8 || t == 3 ? 0 : t == 1 ? (int) a.size() - 3 : -1, false); });
    mc::add("blown-up-4-node-graphs", 64 * 81 * 2, [](uint64_t k) { graph(blow(k, 4), -1, true); }, [](uint64_t k) { return present(blow(k, 4), 1).str(); });
    if (th) mc::add("blown-up-5-node-graphs", 1024 * 243 * 2, [](uint64_t k) { graph(blow(k, 5), -1, false); }, [](uint64_t k) { return present(blow(k, 5), 1).str(); });
    for (int n : {8, 9}) { uint64_t c = (uint64_t) n * n; mc::add(mc::fmt("grid-and-2-extra-%d", n), c * c, [n](uint64_t k) { mc::Dec d(k); Adj a = structured_graph(5, n); for (int q = 0; q < 2; q++) { int i = (int) d(n), j = (int) d(n); if (i != j) a[i][j] = a[j][i] = 1; } graph(a, -1, false); }, [n](uint64_t k) { return mc::fmt("grid of %d nodes and two more edges, number %llu", n, (unsigned long long) k); }); }
}
