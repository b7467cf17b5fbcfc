// h_session.cpp: S15 (session histories), S16 (invalid arguments), S17 (memory wrappers)
#include "lu.h"
using ref::Z; using ref::Q; using ref::Mat;
static std::string PROP;

// ================================================================ objects that do not belong to the library
// a nonsingular 2-by-2 system, its factors and everything a call can be given, in user memory: they exist without a session
struct User {
    mp_limb_t limb[64]; int nl = 0; int64_t Ap[3], Ai[4], Lp[3], Li[3], Up[3], Ui[3], q[3], pinv[2]; mpz_t Ax[4], bx[2], Lx[3], Ux[3], rx[2]; double dx[4];
    SLIP_matrix A, b, L, U, rhos, D; SLIP_LU_analysis S; SLIP_options o;
    void z(mpz_t x, long v) { limb[nl] = (mp_limb_t) (v < 0 ? -v : v); x->_mp_alloc = 1; x->_mp_size = v < 0 ? -1 : v > 0; x->_mp_d = limb + nl++; }
    void one(mpq_t s) { z(mpq_numref(s), 1); z(mpq_denref(s), 1); }
    void hdr(SLIP_matrix &M, SLIP_kind k, SLIP_type t, int64_t m, int64_t n, int64_t nzmax) { memset(&M, 0, sizeof M); M.kind = k; M.type = t; M.m = m; M.n = n; M.nzmax = nzmax; M.p_shallow = M.i_shallow = M.j_shallow = M.x_shallow = true; one(M.scale); }
    User()
    {   // A = [4 1; 2 3] (det 10), Q = I, pivots 4, 10 with P = I; L = [4 0; 2 10], U = [4 1; 0 10]
        nl = 0; memset(limb, 0, sizeof limb);
        hdr(A, SLIP_CSC, SLIP_MPZ, 2, 2, 4); A.p = Ap; A.i = Ai; A.x.mpz = Ax; Ap[0] = 0; Ap[1] = 2; Ap[2] = 4; int64_t ai[] = {0, 1, 0, 1}; memcpy(Ai, ai, sizeof ai); long av[] = {4, 2, 1, 3}; for (int k = 0; k < 4; k++) z(Ax[k], av[k]);
        hdr(b, SLIP_DENSE, SLIP_MPZ, 2, 1, 2); b.x.mpz = bx; z(bx[0], 5); z(bx[1], -1);
        hdr(L, SLIP_CSC, SLIP_MPZ, 2, 2, 3); L.p = Lp; L.i = Li; L.x.mpz = Lx; Lp[0] = 0; Lp[1] = 2; Lp[2] = 3; Li[0] = 0; Li[1] = 1; Li[2] = 1; z(Lx[0], 4); z(Lx[1], 2); z(Lx[2], 10);
        hdr(U, SLIP_CSC, SLIP_MPZ, 2, 2, 3); U.p = Up; U.i = Ui; U.x.mpz = Ux; Up[0] = 0; Up[1] = 1; Up[2] = 3; Ui[0] = 0; Ui[1] = 0; Ui[2] = 1; z(Ux[0], 4); z(Ux[1], 1); z(Ux[2], 10);
        hdr(rhos, SLIP_DENSE, SLIP_MPZ, 2, 1, 2); rhos.x.mpz = rx; z(rx[0], 4); z(rx[1], 10);
        hdr(D, SLIP_DENSE, SLIP_FP64, 2, 2, 4); D.x.fp64 = dx; dx[0] = 0.5; dx[1] = -2; dx[2] = 0; dx[3] = 3.25;
        S.q = q; q[0] = 0; q[1] = 1; q[2] = 2; S.lnz = S.unz = 4; pinv[0] = 0; pinv[1] = 1; o = defopt(); o.order = SLIP_NO_ORDERING;
    }
    uint64_t hash() const { return mc::hbytes(1, this, sizeof *this); }
};
static User *G;
static void *const SENT = (void *) 0x5e5e5e5e5e5eULL;     // sentinel in output handles

// ================================================================ S15
// every public call: run(open) performs it with good arguments; outside a session it must do nothing but report
struct Call { const char *name; std::function<void(bool open)> run; };
static std::vector<Call> CALLS;
static uint64_t NORMAL[64];     // result of call k in an otherwise unused session
static uint64_t RES; static void res(uint64_t h) { RES = h; }
#define SHUT(st) REQ((st) == SLIP_PANIC, "outside a session the call returned %s, not SLIP_PANIC", info_name(st))
#define UNTOUCHED(p) REQ((void *) (p) == SENT, "outside a session the call wrote to its output")
static void calls()
{
    User &u = *G;
    CALLS.push_back({"SLIP_create_default_options", [&](bool open) {
        SLIP_options *o = SLIP_create_default_options(); if (!open) { REQ(!o, "outside a session options were created"); return; }
        REQ(o, "no options"); res(mc::mix(o->pivot * 100 + o->order * 10 + o->check, mc::mix(o->prec, (uint64_t) (o->tol * 1000)))); SLIP_FREE(o); }});
    CALLS.push_back({"SLIP_matrix_allocate", [&](bool open) {
        SLIP_matrix *M = (SLIP_matrix *) SENT; SLIP_info st = SLIP_matrix_allocate(&M, SLIP_CSC, SLIP_MPZ, 2, 3, 4, false, true, &u.o); if (!open) { SHUT(st); UNTOUCHED(M); return; }
        REQ(st == SLIP_OK && M, "%s", info_name(st)); res(content(M)); mfree(M); }});
    CALLS.push_back({"SLIP_matrix_free", [&](bool open) {
        if (!open) { SLIP_matrix *M = &u.A; SLIP_info st = SLIP_matrix_free(&M, nullptr); SHUT(st); REQ(M == &u.A, "outside a session the handle was cleared"); st = SLIP_matrix_free(nullptr, nullptr); SHUT(st); return; }
        SLIP_matrix *M = nullptr; SLIP_info st = SLIP_matrix_allocate(&M, SLIP_DENSE, SLIP_MPFR, 2, 2, 4, false, true, nullptr); REQ(st == SLIP_OK, "%s", info_name(st)); uint64_t before = xa::live;
        st = SLIP_matrix_free(&M, nullptr); REQ(st == SLIP_OK && !M, "%s", info_name(st)); res(before != xa::live || xa::live == 0); }});
    CALLS.push_back({"SLIP_matrix_nnz", [&](bool open) { int64_t k = SLIP_matrix_nnz(&u.A, &u.o); REQ(k == (open ? 4 : -1), "%lld", (long long) k); res(1); }});
    CALLS.push_back({"SLIP_matrix_copy", [&](bool open) {
        SLIP_matrix *M = (SLIP_matrix *) SENT; SLIP_info st = SLIP_matrix_copy(&M, SLIP_DENSE, SLIP_MPQ, &u.A, &u.o); if (!open) { SHUT(st); UNTOUCHED(M); return; }
        REQ(st == SLIP_OK && M, "%s", info_name(st)); res(content(M)); mfree(M); }});
    CALLS.push_back({"SLIP_matrix_copy of doubles", [&](bool open) {
        SLIP_matrix *M = (SLIP_matrix *) SENT; SLIP_info st = SLIP_matrix_copy(&M, SLIP_CSC, SLIP_MPZ, &u.D, nullptr); if (!open) { SHUT(st); UNTOUCHED(M); return; }
        REQ(st == SLIP_OK && M, "%s", info_name(st)); res(content(M)); mfree(M); }});
    CALLS.push_back({"SLIP_matrix_check", [&](bool open) {
        SLIP_options o = u.o; o.print_level = 3; xp::reset(); SLIP_info st = SLIP_matrix_check(&u.A, &o); if (!open) { SHUT(st); REQ(!xp::lines, "outside a session the call printed"); return; } REQ(st == SLIP_OK, "%s", info_name(st)); res(xp::hash); }});
    CALLS.push_back({"SLIP_LU_analysis_free", [&](bool open) {
        if (!open) { SLIP_LU_analysis *S = &u.S; SLIP_info st = SLIP_LU_analysis_free(&S, nullptr); SHUT(st); REQ(S == &u.S, "outside a session the handle was cleared"); st = SLIP_LU_analysis_free(nullptr, nullptr); SHUT(st); return; }
        SLIP_LU_analysis *S = nullptr; SLIP_info st = SLIP_LU_analysis_free(&S, nullptr); REQ(st == SLIP_OK && !S, "%s", info_name(st)); st = SLIP_LU_analysis_free(nullptr, nullptr); REQ(st == SLIP_OK, "%s", info_name(st)); res(1); }});
    for (int ord = 0; ord < 3; ord++)
        CALLS.push_back({ord == 0 ? "SLIP_LU_analyze (no ordering)" : ord == 1 ? "SLIP_LU_analyze (COLAMD)" : "SLIP_LU_analyze (AMD)", [&u, ord](bool open) {
            SLIP_options o = u.o; o.order = (SLIP_col_order) ord; SLIP_LU_analysis *S = (SLIP_LU_analysis *) SENT; SLIP_info st = SLIP_LU_analyze(&S, &u.A, &o); if (!open) { SHUT(st); UNTOUCHED(S); return; }
            REQ(st == SLIP_OK && S, "%s", info_name(st)); res(snapshot(S, 2)); st = SLIP_LU_analysis_free(&S, &o); REQ(st == SLIP_OK && !S, "%s", info_name(st)); }});
    CALLS.push_back({"SLIP_LU_factorize", [&](bool open) {
        lu::Fac F; F.L = F.U = F.rhos = (SLIP_matrix *) SENT; F.pinv = (int64_t *) SENT; SLIP_info st = SLIP_LU_factorize(&F.L, &F.U, &F.rhos, &F.pinv, &u.A, &u.S, &u.o);
        if (!open) { SHUT(st); UNTOUCHED(F.L); UNTOUCHED(F.U); UNTOUCHED(F.rhos); UNTOUCHED(F.pinv); return; } REQ(st == SLIP_OK, "%s", info_name(st)); res(F.hash(2)); F.clear(); }});
    CALLS.push_back({"SLIP_LU_solve", [&](bool open) {
        SLIP_matrix *M = (SLIP_matrix *) SENT; SLIP_options o = u.o; o.check = true; SLIP_info st = SLIP_LU_solve(&M, &u.b, &u.A, &u.L, &u.U, &u.rhos, &u.S, u.pinv, &o); if (!open) { SHUT(st); UNTOUCHED(M); return; }
        REQ(st == SLIP_OK && M, "%s", info_name(st)); res(content(M)); mfree(M); }});
    for (int t : {SLIP_MPQ, SLIP_MPFR, SLIP_FP64})
        CALLS.push_back({t == SLIP_MPQ ? "SLIP_backslash (rational)" : t == SLIP_MPFR ? "SLIP_backslash (MPFR)" : "SLIP_backslash (double)", [&u, t](bool open) {
            SLIP_matrix *M = (SLIP_matrix *) SENT; SLIP_info st = SLIP_backslash(&M, (SLIP_type) t, &u.A, &u.b, nullptr); if (!open) { SHUT(st); UNTOUCHED(M); return; }
            REQ(st == SLIP_OK && M, "%s", info_name(st)); res(content(M)); mfree(M); }});
    CALLS.push_back({"mpfr_log2 of 10 at 60 and 400 bits", [](bool open) {   // MPFR keeps the constants it computed until the session is closed
        if (!open) return; uint64_t h = 1; for (int prec : {60, 400}) { mpfr_t x; SLIP_info st = SLIP_mpfr_init2(x, prec); REQ(st == SLIP_OK, "%s", info_name(st)); st = SLIP_mpfr_set_d(x, 10, MPFR_RNDN); REQ(st == SLIP_OK, "%s", info_name(st));
            mpfr_log2(x, x, MPFR_RNDN); h = mc::hbytes(h, x->_mpfr_d, (prec + 63) / 64 * 8); mpfr_clear(x); }
        res(h); }});
    CALLS.push_back({"SLIP_malloc, SLIP_free", [&](bool open) { char *p = (char *) SLIP_malloc(40); if (!open) { REQ(!p, "outside a session SLIP_malloc returned a block"); SLIP_free(&u.A); return; } REQ(p, "no block"); memset(p, 1, 40); SLIP_free(p); res(1); }});
    CALLS.push_back({"SLIP_calloc", [&](bool open) { char *p = (char *) SLIP_calloc(5, 8); if (!open) { REQ(!p, "outside a session SLIP_calloc returned a block"); return; } REQ(p, "no block"); for (int i = 0; i < 40; i++) REQ(!p[i], "not cleared"); SLIP_free(p); res(1); }});
    CALLS.push_back({"SLIP_realloc", [&](bool open) {
        bool ok = true; if (!open) { void *p = SLIP_realloc(9, 4, 8, u.Ai, &ok); REQ(p == u.Ai && !ok, "outside a session SLIP_realloc did not return the block unchanged"); ok = true; p = SLIP_realloc(9, 4, 8, nullptr, &ok); REQ(!p && !ok, "outside a session SLIP_realloc returned a block"); return; }
        char *p = (char *) SLIP_realloc(4, 0, 8, nullptr, &ok); REQ(p && ok, "no block"); memset(p, 7, 32); p = (char *) SLIP_realloc(9, 4, 8, p, &ok); REQ(p && ok && p[31] == 7, "growth failed"); SLIP_free(p); res(1); }});
}
static void *ym(size_t) { mc::fail("the allocator of a refused SLIP_initialize_expert is used"); }
static void *yc(size_t, size_t) { mc::fail("the allocator of a refused SLIP_initialize_expert is used"); }
static void *yr(void *, size_t) { mc::fail("the allocator of a refused SLIP_initialize_expert is used"); }
static void yf(void *) { mc::fail("the allocator of a refused SLIP_initialize_expert is used"); }
enum { OPEN, OPENX, CLOSE, NCTL };
static bool IS_OPEN;
static void op(int a)
{
    if (a == OPEN || a == OPENX) {
        if (a == OPENX && IS_OPEN) {   // every choice of functions that stay the same is refused and changes nothing
            auto c = SuiteSparse_config;
            for (int k = 1; k < 16; k++) {
                SLIP_info st = SLIP_initialize_expert(k & 1 ? ym : c.malloc_func, k & 2 ? yc : c.calloc_func, k & 4 ? yr : c.realloc_func, k & 8 ? yf : c.free_func); mc::nstep(1);
                REQ(st == SLIP_PANIC, "a second SLIP_initialize_expert (functions replaced: %d) returned %s", k, info_name(st));
                auto &g = SuiteSparse_config; REQ(c.malloc_func == g.malloc_func && c.calloc_func == g.calloc_func && c.realloc_func == g.realloc_func && c.free_func == g.free_func, "a refused SLIP_initialize_expert (functions replaced: %d) changed the allocator", k);
            }
        }
        SLIP_info st = a == OPEN ? SLIP_initialize() : SLIP_initialize_expert(xa::xmalloc, xa::xcalloc, xa::xrealloc, xa::xfree);
        REQ(st == (IS_OPEN ? SLIP_PANIC : SLIP_OK), "opening %s session returned %s", IS_OPEN ? "a second" : "a", info_name(st)); IS_OPEN = true; mc::step(mc::mix(a, st));
    } else if (a == CLOSE) {
        SLIP_info st = SLIP_finalize(); REQ(st == (IS_OPEN ? SLIP_OK : SLIP_PANIC), "closing %s returned %s", IS_OPEN ? "the session" : "without a session", info_name(st)); IS_OPEN = false; mc::step(mc::mix(a, st));
        REQ(xa::live == 0, "%llu block(s) outstanding after the session was closed: %s", (unsigned long long) xa::live, xa::live_str().c_str());
    } else {
        int k = a - NCTL; uint64_t rq = xa::requests, fr = xa::n_free, lv = xa::live, h = G->hash(); RES = 0; CALLS[k].run(IS_OPEN);
        REQ(G->hash() == h, "%s: an argument was changed", CALLS[k].name);
        if (!IS_OPEN) REQ(xa::requests == rq && xa::n_free == fr && xa::live == lv, "%s: memory was obtained or released outside a session", CALLS[k].name);
        else if (NORMAL[k]) REQ(RES == NORMAL[k], "%s: result differs from the one in a fresh session", CALLS[k].name);
        mc::step(mc::mix(mc::mix(a, IS_OPEN), RES));
    }
}
static std::string opname(int a) { return a == OPEN ? "SLIP_initialize" : a == OPENX ? "SLIP_initialize_expert" : a == CLOSE ? "SLIP_finalize" : CALLS[a - NCTL].name; }
static void begin15()
{
    use_tracked(); IS_OPEN = false; static bool done = false; if (done) return; done = true;
    for (size_t k = 0; k < CALLS.size(); k++) { op(OPENX); op(NCTL + (int) k); NORMAL[k] = RES ? RES : 1; op(CLOSE); }
    for (size_t k = 0; k < CALLS.size(); k++) if (!NORMAL[k]) NORMAL[k] = 1;
}
static void run_seq(const std::vector<int> &s) { begin15(); for (int a : s) op(a); if (IS_OPEN) op(CLOSE); mc::outcome(0); mc::trace(); }
static std::string seq_str(const std::vector<int> &s) { std::string r; for (int a : s) r += (r.empty() ? "" : "; ") + opname(a); return r; }
static void s15(bool th)
{
    calls(); int n = NCTL + (int) CALLS.size();
    for (int d = 1; d <= (th ? 5 : 4); d++)
        mc::add(mc::fmt("all-calls-depth-%d", d), mc::ipow(n, d), [=](uint64_t i) { mc::Dec D(i); std::vector<int> s; for (int k = 0; k < d; k++) s.push_back(D(n)); run_seq(s); }, [=](uint64_t i) { mc::Dec D(i); std::vector<int> s; for (int k = 0; k < d; k++) s.push_back(D(n)); return seq_str(s); });
    static std::vector<int> few; for (int a = 0; a < NCTL; a++) few.push_back(a);
    for (size_t k = 0; k < CALLS.size(); k++) { std::string nm = CALLS[k].name; if (nm == "SLIP_backslash (MPFR)" || nm == "SLIP_matrix_check" || nm == "SLIP_realloc" || nm.compare(0, 10, "mpfr_log2 ") == 0 || nm == "SLIP_LU_factorize") few.push_back(NCTL + (int) k); }
    int f = (int) few.size(), d = th ? 8 : 6;
    mc::add(mc::fmt("few-calls-depth-%d", d), mc::ipow(f, d), [=](uint64_t i) { mc::Dec D(i); std::vector<int> s; for (int k = 0; k < d; k++) s.push_back(few[D(f)]); run_seq(s); }, [=](uint64_t i) { mc::Dec D(i); std::vector<int> s; for (int k = 0; k < d; k++) s.push_back(few[D(f)]); return seq_str(s); });
    // sessions whose last call ran out of memory, then further sessions
    mc::add("after-out-of-memory", (uint64_t) CALLS.size() * 40 * 4, [](uint64_t i) {
        begin15(); mc::Dec D(i); int k = D(CALLS.size()), r = D(40) + 1, mode = D(4); User &u = *G;
        op(mode & 1 ? OPEN : OPENX); if (mode & 2) { SLIP_matrix *M = nullptr; SLIP_info st = SLIP_matrix_copy(&M, SLIP_DENSE, SLIP_MPQ, &u.A, nullptr); REQ(st == SLIP_OK, "%s", info_name(st)); mfree(M); }
        SLIP_matrix *M = nullptr; SLIP_options o = u.o; o.print_level = 3; xa::arm_from(r);
        SLIP_info st = k % 3 == 0 ? SLIP_matrix_check(&u.D, &o) : k % 3 == 1 ? SLIP_backslash(&M, SLIP_FP64, &u.A, &u.b, nullptr) : SLIP_matrix_copy(&M, SLIP_CSC, SLIP_MPFR, &u.A, nullptr); xa::disarm();
        mc::step(mc::mix(i, st)); if (M) mfree(M);
        op(CLOSE); op(NCTL + k); op(OPEN); op(NCTL + k); op(CLOSE); mc::trace(); mc::outcome(1);
    }, [](uint64_t i) { mc::Dec D(i); int k = D(CALLS.size()), r = D(40) + 1, mode = D(4); return mc::fmt("%s; %sa call during which all allocations from number %d on fail; SLIP_finalize; then, outside and inside a new session: %s", mode & 1 ? "SLIP_initialize" : "SLIP_initialize_expert", mode & 2 ? "a copy; " : "", r, CALLS[k].name); });
    mc::outcome_name(0, "call sequences"); mc::outcome_name(1, "sessions after out of memory");
}
// ================================================================ S16
// an argument list is good except for one or two mutations
struct Args {
    SLIP_matrix *A = nullptr, *b = nullptr, *T = nullptr; lu::Fac F; SLIP_options o;
    const SLIP_matrix *pA, *pb, *pL, *pU, *prhos; const SLIP_LU_analysis *pS; const int64_t *ppinv; const SLIP_options *po;
    SLIP_matrix *h[3]; int64_t *hp; SLIP_LU_analysis *hS; SLIP_matrix **H[3]; int64_t **Hp; SLIP_LU_analysis **HS;
    int type, kind; int64_t m, n, nz; bool shallow;
};
struct Mut { std::string name; std::function<std::function<void()>(Args &)> apply; std::string slot; };   // returns the undo
struct Fun { const char *name; std::function<SLIP_info(Args &)> run; std::vector<Mut> muts; };
static std::vector<Fun> FUNS;
template<class T> static std::function<void()> put(T &x, T v) { T old = x; x = v; T *p = &x; return [=]() { *p = old; }; }
typedef SLIP_matrix *Args::*MP; typedef const SLIP_matrix *Args::*CMP_;
static SLIP_matrix *mat(Args &a, int w) { switch (w) { case 0: return a.A; case 1: return a.b; case 2: return a.F.L; case 3: return a.F.U; case 4: return a.F.rhos; default: return a.T; } }
static const SLIP_matrix *&ptr(Args &a, int w) { switch (w) { case 0: return a.pA; case 1: return a.pb; case 2: return a.pL; case 3: return a.pU; case 4: return a.prhos; default: return a.pA; } }
static const char *WN[] = {"A", "b", "L", "U", "rhos", "A"};
static void matrix_muts(Fun &f, int w, int kind, int type, bool csc_p)     // kind/type < 0: not prescribed
{
    std::string nm = WN[w], sl = nm;
    f.muts.push_back({nm + " = NULL", [=](Args &a) { return put<const SLIP_matrix *>(ptr(a, w), nullptr); }, sl});
    for (int k : {-1, 0, 1, 2, 3, INT_MAX}) { if (kind >= 0 ? k == kind : (k >= 0 && k <= 2)) continue; f.muts.push_back({mc::fmt("%s->kind = %d", nm.c_str(), k), [=](Args &a) { return put(mat(a, w)->kind, (SLIP_kind) k); }, sl + "k"}); }
    if (type != -2) for (int t : {-1, 0, 1, 2, 3, 4, 5, INT_MAX}) { if (type >= 0 ? t == type : (t >= 0 && t <= 4)) continue; f.muts.push_back({mc::fmt("%s->type = %d", nm.c_str(), t), [=](Args &a) { return put(mat(a, w)->type, (SLIP_type) t); }, sl + "t"}); }
    if (csc_p) f.muts.push_back({nm + "->p = NULL", [=](Args &a) { return put<int64_t *>(mat(a, w)->p, nullptr); }, sl + "p"});
}
static void dim_mut(Fun &f, int w, bool m, int64_t d) { f.muts.push_back({mc::fmt("%s->%c %+lld", WN[w], m ? 'm' : 'n', (long long) d), [=](Args &a) { int64_t &x = m ? mat(a, w)->m : mat(a, w)->n; return put(x, x + d); }, mc::fmt("%sdim", WN[w])}); }
// a matrix with other dimensions that is itself well formed takes the place of the good one
static void build_args(Args &a)
{
    Spec s; s.m = s.n = 3; long v[9] = {4, 1, 0, 2, 0, 5, 0, 3, 7}; for (int j = 0; j < 3; j++) for (int i = 0; i < 3; i++) if (v[3 * j + i]) s.e.push_back({i, j, Z(v[3 * j + i])});
    a.o = defopt(); a.o.order = SLIP_NO_ORDERING; a.A = make_csc(s); a.T = make_csc(s); Mat B = ref::zeros(3, 2); B[0][0] = 5; B[1][1] = -2; B[2][0] = 1; a.b = make_dense(B, 3, 2);
    SLIP_info st = SLIP_LU_analyze(&a.F.S, a.A, &a.o); REQ(st == SLIP_OK, "analysis: %s", info_name(st)); st = SLIP_LU_factorize(&a.F.L, &a.F.U, &a.F.rhos, &a.F.pinv, a.A, a.F.S, &a.o); REQ(st == SLIP_OK, "factorization: %s", info_name(st));
    a.pA = a.A; a.pb = a.b; a.pL = a.F.L; a.pU = a.F.U; a.prhos = a.F.rhos; a.pS = a.F.S; a.ppinv = a.F.pinv; a.po = &a.o;
    for (int k = 0; k < 3; k++) { a.h[k] = (SLIP_matrix *) SENT; a.H[k] = &a.h[k]; } a.hp = (int64_t *) SENT; a.Hp = &a.hp; a.hS = (SLIP_LU_analysis *) SENT; a.HS = &a.hS;
    a.type = SLIP_MPQ; a.kind = SLIP_CSC; a.m = 2; a.n = 3; a.nz = 4; a.shallow = false;
}
static void s16(bool th)
{
    auto handle = [](Fun &f, int k, const char *nm) { f.muts.push_back({std::string(nm) + " = NULL", [=](Args &a) { return put<SLIP_matrix **>(a.H[k], nullptr); }, nm}); };
    auto enums = [](Fun &f, bool kind, std::vector<int> bad) { for (int v : bad) f.muts.push_back({mc::fmt("%s = %d", kind ? "kind" : "type", v), [=](Args &a) { return put(kind ? a.kind : a.type, v); }, kind ? "kind" : "type"}); };
    { Fun f{"SLIP_matrix_allocate", [](Args &a) { return SLIP_matrix_allocate(a.H[0], (SLIP_kind) a.kind, (SLIP_type) a.type, a.m, a.n, a.nz, a.shallow, true, a.po); }, {}};
      handle(f, 0, "A_handle"); enums(f, true, {-1, 3, INT_MAX, INT_MIN}); enums(f, false, {-1, 5, INT_MAX, INT_MIN});
      for (int64_t v : {(int64_t) -1, INT64_MIN}) { f.muts.push_back({mc::fmt("m = %lld", (long long) v), [=](Args &a) { return put(a.m, v); }, "m"}); f.muts.push_back({mc::fmt("n = %lld", (long long) v), [=](Args &a) { return put(a.n, v); }, "n"}); }
      FUNS.push_back(f); Fun g = f; g.name = "SLIP_matrix_allocate (shallow dense)"; g.run = [](Args &a) { return SLIP_matrix_allocate(a.H[0], (SLIP_kind) (a.kind == SLIP_CSC ? SLIP_DENSE : a.kind), (SLIP_type) a.type, a.m, a.n, a.nz, true, true, a.po); }; FUNS.push_back(g); }
    for (int ck = 0; ck < 3; ck++) { static const char *nm[] = {"SLIP_matrix_copy to CSC", "SLIP_matrix_copy to triplet", "SLIP_matrix_copy to dense"};
      Fun f{nm[ck], [ck](Args &a) { return SLIP_matrix_copy(a.H[0], (SLIP_kind) (a.kind == SLIP_CSC ? ck : a.kind), (SLIP_type) a.type, (SLIP_matrix *) a.pA, a.po); }, {}};
      handle(f, 0, "C_handle"); enums(f, true, {-1, 3, INT_MAX, INT_MIN}); enums(f, false, {-1, 5, INT_MAX, INT_MIN}); matrix_muts(f, 0, -1, -1, true);
      FUNS.push_back(f); }
    { Fun f{"SLIP_matrix_check", [](Args &a) { return SLIP_matrix_check(a.pA, a.po); }, {}}; matrix_muts(f, 0, -1, -1, true); FUNS.push_back(f); }
    { Fun f{"SLIP_matrix_nnz", [](Args &a) { return SLIP_matrix_nnz(a.pA, a.po) == -1 ? SLIP_INCORRECT_INPUT : SLIP_OK; }, {}}; matrix_muts(f, 0, -1, -2, true);
      f.muts.push_back({"A->n = -1", [](Args &a) { return put(a.A->n, (int64_t) -1); }, "n"}); FUNS.push_back(f); }
    for (int ord = 0; ord < 3; ord++) { static const char *nm[] = {"SLIP_LU_analyze (no ordering)", "SLIP_LU_analyze (COLAMD)", "SLIP_LU_analyze (AMD)"};
      Fun f{nm[ord], [ord](Args &a) { a.o.order = (SLIP_col_order) ord; return SLIP_LU_analyze(a.HS, a.pA, a.po); }, {}};
      f.muts.push_back({"S = NULL", [](Args &a) { return put<SLIP_LU_analysis **>(a.HS, nullptr); }, "S"}); matrix_muts(f, 0, SLIP_CSC, -2, true);
      for (int d : {-1, 1, 7}) { dim_mut(f, 0, true, d); if (d < 0) dim_mut(f, 0, false, d); }
      FUNS.push_back(f); }
    { Fun f{"SLIP_LU_factorize", [](Args &a) { return SLIP_LU_factorize(a.H[0], a.H[1], a.H[2], a.Hp, a.pA, a.pS, a.po); }, {}};
      handle(f, 0, "L_handle"); handle(f, 1, "U_handle"); handle(f, 2, "rhos_handle"); f.muts.push_back({"pinv_handle = NULL", [](Args &a) { return put<int64_t **>(a.Hp, nullptr); }, "pinv_handle"});
      f.muts.push_back({"S = NULL", [](Args &a) { return put<const SLIP_LU_analysis *>(a.pS, nullptr); }, "S"}); matrix_muts(f, 0, SLIP_CSC, SLIP_MPZ, true);
      for (int d : {-1, 1, 5}) { dim_mut(f, 0, true, d); if (d < 0) dim_mut(f, 0, false, d); }
      FUNS.push_back(f); }
    { Fun f{"SLIP_LU_solve", [](Args &a) { return SLIP_LU_solve(a.H[0], a.pb, a.pA, a.pL, a.pU, a.prhos, a.pS, a.ppinv, a.po); }, {}};
      handle(f, 0, "x_handle"); f.muts.push_back({"S = NULL", [](Args &a) { return put<const SLIP_LU_analysis *>(a.pS, nullptr); }, "S"}); f.muts.push_back({"pinv = NULL", [](Args &a) { return put<const int64_t *>(a.ppinv, nullptr); }, "pinv"});
      for (int w = 0; w < 5; w++) { matrix_muts(f, w, w == 1 || w == 4 ? SLIP_DENSE : SLIP_CSC, SLIP_MPZ, false); for (int d : {-1, 1}) { dim_mut(f, w, true, d); if (w != 1 && w != 4) dim_mut(f, w, false, d); } }
      FUNS.push_back(f); }
    for (int t : {SLIP_MPQ, SLIP_MPFR, SLIP_FP64}) { static const char *nm[5] = {0, "SLIP_backslash (rational)", "SLIP_backslash (MPFR)", 0, "SLIP_backslash (double)"};
      Fun f{nm[t], [t](Args &a) { return SLIP_backslash(a.H[0], (SLIP_type) (a.type == SLIP_MPQ ? t : a.type), a.pA, a.pb, a.po); }, {}};
      handle(f, 0, "X_handle"); enums(f, false, {-1, SLIP_MPZ, SLIP_INT64, 5, INT_MAX}); matrix_muts(f, 0, SLIP_CSC, SLIP_MPZ, true); matrix_muts(f, 1, SLIP_DENSE, SLIP_MPZ, false);
      for (int d : {-1, 1}) { dim_mut(f, 0, true, d); if (d < 0) dim_mut(f, 0, false, d); dim_mut(f, 1, true, d); }
      FUNS.push_back(f); }
    mc::outcome_name(0, "refused"); mc::outcome_name(1, "well-formed call accepted");
    static std::vector<std::array<int, 5>> work;     // function, mutations (or -1), options null, order of use
    for (size_t k = 0; k < FUNS.size(); k++) { int nm = (int) FUNS[k].muts.size();
        for (int x = -1; x < nm; x++) for (int y = x; y < nm; y++) { if (x < 0 && y >= 0) continue; if (y >= 0 && y != x && FUNS[k].muts[x].slot == FUNS[k].muts[y].slot) continue;
            if (x >= 0 && y == x) work.push_back({(int) k, x, -1, 0, 0}); else work.push_back({(int) k, x, y, 0, 0}); } }
    size_t base = work.size(); for (size_t k = 0; k < base; k++) { auto w = work[k]; w[3] = 1; work.push_back(w); }
    auto what = [](uint64_t i) { auto &w = work[i]; Fun &f = FUNS[w[0]]; return mc::fmt("%s with %s%s%s, %s options", f.name, w[1] < 0 ? "good arguments" : f.muts[w[1]].name.c_str(), w[2] < 0 ? "" : " and ", w[2] < 0 ? "" : f.muts[w[2]].name.c_str(), w[3] ? "null" : "given"); };
    mc::add("singles-and-pairs", work.size(), [](uint64_t i) {
        auto w = work[i]; Fun &f = FUNS[w[0]]; session_open(); session_warm(); { Args a; build_args(a); if (w[3]) a.po = nullptr;
        std::vector<std::function<void()>> undo; uint64_t inp = mc::mix(mc::mix(snapshot(a.A), snapshot(a.b)), mc::mix(snapshot(a.F.L), mc::mix(snapshot(a.F.U), mc::mix(snapshot(a.F.rhos), mc::mix(snapshot(a.F.S, 3), mc::hbytes(0, a.F.pinv, 24))))));
        for (int k : {w[1], w[2]}) if (k >= 0) undo.push_back(f.muts[k].apply(a));
        uint64_t lv = xa::live; SLIP_info st = f.run(a); int bad = w[1] >= 0; mc::step(mc::mix(mc::mix(w[0], w[1] + 2), mc::mix(w[2] + 2, st)));
        while (!undo.empty()) { undo.back()(); undo.pop_back(); }
        REQ(st == (bad ? SLIP_INCORRECT_INPUT : SLIP_OK), "returned %s", info_name(st));
        uint64_t inp2 = mc::mix(mc::mix(snapshot(a.A), snapshot(a.b)), mc::mix(snapshot(a.F.L), mc::mix(snapshot(a.F.U), mc::mix(snapshot(a.F.rhos), mc::mix(snapshot(a.F.S, 3), mc::hbytes(0, a.F.pinv, 24))))));
        REQ(inp == inp2, "an input was changed");
        if (bad) {
            for (int k = 0; k < 3; k++) REQ(a.h[k] == SENT || !a.h[k], "a refused call delivered a result"); REQ((void *) a.hp == SENT || !a.hp, "a refused call delivered a result"); REQ((void *) a.hS == SENT || !a.hS, "a refused call delivered a result");
            REQ(xa::live == lv, "the refused call leaked or released memory: %llu blocks before, %llu after", (unsigned long long) lv, (unsigned long long) xa::live);
            // the same arguments without the mutation are accepted afterwards
            Args &g = a; for (int k = 0; k < 3; k++) g.h[k] = (SLIP_matrix *) SENT; g.hp = (int64_t *) SENT; g.hS = (SLIP_LU_analysis *) SENT; st = f.run(a); REQ(st == SLIP_OK, "after the refused call the good call returned %s", info_name(st));
        }
        for (int k = 0; k < 3; k++) if (a.h[k] != SENT) mfree(a.h[k]); if ((void *) a.hp != SENT) SLIP_FREE(a.hp); if ((void *) a.hS != SENT) { st = SLIP_LU_analysis_free(&a.hS, nullptr); }
        mfree(a.A); mfree(a.b); mfree(a.T); a.F.clear(); mc::outcome(!bad); } session_close(); mc::trace();
    }, what);
}
// ================================================================ S17
namespace fa {      // an allocator that also answers huge requests, without memory behind them
    static uint64_t calls, last_size, nfree; static bool refuse; static char token[16]; static void *rec; static const size_t BIG = 1 << 16;
    static void *m(size_t n) { calls++; last_size = n; if (refuse) return nullptr; if (n > BIG) return rec = token; return rec = xa::xmalloc(n); }
    static void *c(size_t a, size_t b) { calls++; unsigned __int128 p = (unsigned __int128) a * b; last_size = (uint64_t) p; if (refuse || (p >> 64)) return nullptr; if (p > BIG) return rec = token; return rec = xa::xcalloc(a, b); }
    static void *r(void *p, size_t n) { calls++; last_size = n; if (refuse) return nullptr; if (n > BIG) { return nullptr; } return rec = xa::xrealloc(p, n); }
    static void f(void *p) { nfree++; if (p == token) return; xa::xfree(p); }
}
static std::vector<uint64_t> NI, SZ;
static void s17(bool th)
{
    uint64_t two = 1; std::vector<int> bits = true ? std::vector<int>{1, 2, 3, 4, 6, 8, 12, 16, 20, 24, 30, 31, 32, 33, 40, 48, 52, 53, 54, 60, 61, 62, 63} : std::vector<int>{3, 8, 16, 31, 32, 33, 48, 53, 61, 63};
    auto addv = [](std::vector<uint64_t> &v, uint64_t x) { for (uint64_t y : v) if (y == x) return; v.push_back(x); };
    for (auto *v : {&NI, &SZ}) { for (uint64_t x : {0, 1, 2, 3, 5, 7, 8, 24, 100}) addv(*v, x); for (int b : bits) for (int d = -1; d <= 1; d++) addv(*v, (two << b) + d); for (uint64_t s : {2, 3, 5, 7, 8, 16, 24}) for (int d = -1; d <= 1; d++) addv(*v, UINT64_MAX / s + d); addv(*v, UINT64_MAX); addv(*v, UINT64_MAX - 1); addv(*v, (uint64_t) INT64_MAX + 2); }
    uint64_t a = NI.size(), b = SZ.size();
    static const char *FN[] = {"SuiteSparse_malloc", "SuiteSparse_calloc", "SLIP_malloc", "SLIP_calloc", "SuiteSparse_realloc of NULL", "SLIP_realloc of NULL"};
    mc::outcome_name(0, "overflow refused"); mc::outcome_name(1, "block"); mc::outcome_name(2, "allocator refused"); mc::outcome_name(3, "reallocation history");
    auto begin = [](bool via) {
        if (via) { SLIP_info st = SLIP_initialize_expert(fa::m, fa::c, fa::r, fa::f); REQ(st == SLIP_OK, "%s", info_name(st)); } else { SuiteSparse_config.malloc_func = fa::m; SuiteSparse_config.calloc_func = fa::c; SuiteSparse_config.realloc_func = fa::r; SuiteSparse_config.free_func = fa::f; }
        fa::calls = fa::nfree = 0; fa::refuse = false; fa::rec = nullptr; };
    auto end = [](bool via) { if (via) { SLIP_info st = SLIP_finalize(); REQ(st == SLIP_OK, "%s", info_name(st)); } REQ(xa::live == 0, "a block was leaked"); };
    mc::add("fresh-blocks", 6 * a * b * 2, [=](uint64_t i) {
        mc::Dec D(i); int fn = D(6); uint64_t n = NI[D(a)], s = SZ[D(b)]; bool no = D(2), via = fn == 2 || fn == 3 || fn == 5, ok = true; int iok = 5; begin(via); fa::refuse = no;
        if (fn == 2) n = 1;
        void *p = nullptr; switch (fn) { case 0: p = SuiteSparse_malloc(n, s); break; case 1: p = SuiteSparse_calloc(n, s); break; case 2: p = SLIP_malloc(s); break; case 3: p = SLIP_calloc(n, s); break; case 4: p = SuiteSparse_realloc(n, 0, s, nullptr, &iok); ok = iok; break; case 5: p = SLIP_realloc((int64_t) n, 0, s, nullptr, &ok); break; }
        unsigned __int128 want = (unsigned __int128) (n ? n : 1) * (s ? s : 1); mc::step(mc::mix(mc::mix(fn, n), mc::mix(s, (p != nullptr) * 2 + no)));
        if (want >> 64) { REQ(!p, "the size overflows but a block was returned"); if (fn >= 4) REQ(!ok, "the size overflows but success was reported"); mc::outcome(0); }
        else {
            if (p) { REQ(!no && p == fa::rec, "the block does not come from the configured allocator"); REQ(fa::last_size >= (uint64_t) want, "a block of %llu bytes was requested, %llu are needed", (unsigned long long) fa::last_size, (unsigned long long) want); REQ(!(fn >= 4) || ok, "a block was returned but failure reported"); }
            else { REQ(no || want >= ((unsigned __int128) 1 << 53), "null although the allocator had memory"); if (fn >= 4) REQ(!ok, "no block but success reported"); }
            if (want < ((unsigned __int128) 1 << 53)) REQ(fa::calls == 1, "the configured allocator was called %llu times", (unsigned long long) fa::calls);
            if (p && want <= fa::BIG && (fn == 1 || fn == 3)) for (uint64_t k = 0; k < (uint64_t) want; k++) REQ(!((char *) p)[k], "byte %llu is not cleared", (unsigned long long) k);
            mc::outcome(p ? 1 : 2);
        }
        if (p) { fa::refuse = false; if (via) SLIP_free(p); else { void *z = SuiteSparse_free(p); REQ(!z, "SuiteSparse_free returned a pointer"); } REQ(fa::nfree == 1, "the block was not passed to the configured free function once"); }
        end(via); mc::trace();
    }, [=](uint64_t i) { mc::Dec D(i); int fn = D(6); uint64_t n = NI[D(a)], s = SZ[D(b)]; bool no = D(2); return mc::fmt("%s, %llu items of %llu bytes, allocator %s", FN[fn], (unsigned long long) n, (unsigned long long) s, no ? "refuses" : "has memory"); });
    // histories of reallocations of one block
    static const int64_t NN[] = {0, 1, 2, 5, 16, 40, INT64_MAX, -1, (int64_t) 1 << 61, (int64_t) 1 << 33}; static const size_t IS[] = {0, 1, 3, 8, 24};
    int depth = th ? 4 : 3; uint64_t per = 10 * 2, tot = 2 * 5 * 5;
    for (int k = 0; k < depth; k++) tot *= per;
    mc::add("reallocation-histories", tot, [=](uint64_t i) {
        mc::Dec D(i); bool via = D(2); size_t s = IS[D(5)]; int64_t cur = NN[D(5)]; begin(via); std::vector<unsigned char> want; size_t es = s ? s : 1; auto items = [](int64_t n) -> uint64_t { return n == 0 ? 1 : (uint64_t) n; };
        char *p = (char *) (via ? SLIP_malloc(items(cur) * es) : SuiteSparse_malloc(items(cur), s)); REQ(p, "no block"); unsigned char c = 1; for (uint64_t k = 0; k < items(cur) * es; k++) { p[k] = c; want.push_back(c); c = c * 5 + 3; }
        for (int st = 0; st < depth; st++) {
            int64_t n = NN[D(10)]; bool no = D(2); fa::refuse = no; bool ok = true; int iok = 7; char *q; size_t was = xa::size_of(p); REQ(was != (size_t) -1, "the block is gone");
            if (via) q = (char *) SLIP_realloc(n, cur, s, p, &ok); else { q = (char *) SuiteSparse_realloc((size_t) n, (size_t) cur, s, p, &iok); REQ(iok == 0 || iok == 1, "ok = %d", iok); ok = iok; }
            fa::refuse = false; unsigned __int128 need = (unsigned __int128) items(n) * es; bool over = need >> 64, grow = items(n) > items(cur), huge = need > fa::BIG; mc::step(mc::mix(mc::mix(n, cur), mc::mix(s, ok * 2 + (q == p))));
            REQ(q, "the block was replaced by null"); size_t sz = xa::size_of(q); REQ(sz != (size_t) -1, "the returned block is not live");
            bool expect = grow ? !(over || huge || no) : true; REQ(ok == expect, "%s from %lld to %lld items %s reported as %s", grow ? "growth" : "shrinking", (long long) cur, (long long) n, no ? "(allocator refuses)" : "", ok ? "success" : "failure");
            if (!ok) { REQ(q == p, "a failed growth moved the block"); REQ(sz == was, "a failed growth changed the block"); }
            else { REQ(sz >= (size_t) need, "block of %zu bytes, %llu needed", sz, (unsigned long long) need); cur = n; if (want.size() > (size_t) need) want.resize((size_t) need); }
            REQ(!memcmp(q, want.data(), want.size()), "the contents were lost"); p = q; REQ(xa::live == 1, "a block was leaked");
            if (ok) while (want.size() < (size_t) need) { p[want.size()] = c; want.push_back(c); c = c * 5 + 3; }
        }
        uint64_t f0 = fa::nfree; if (via) SLIP_free(p); else SuiteSparse_free(p); REQ(fa::nfree == f0 + 1, "the block was not freed once"); f0 = fa::nfree; if (via) SLIP_free(nullptr); else { void *z = SuiteSparse_free(nullptr); REQ(!z, "SuiteSparse_free(NULL) returned a pointer"); } REQ(fa::nfree == f0, "a null pointer was passed to the free function");
        end(via); mc::outcome(3); mc::trace();
    }, [=](uint64_t i) { mc::Dec D(i); bool via = D(2); size_t s = IS[D(5)]; std::string r = mc::fmt("%s, items of %zu bytes: %lld items", via ? "SLIP_realloc" : "SuiteSparse_realloc", s, (long long) NN[D(5)]); for (int k = 0; k < depth; k++) { int64_t n = NN[D(10)]; bool no = D(2); r += mc::fmt(" -> %lld%s", (long long) n, no ? " (allocator refuses)" : ""); } return r; });
    mc::assume("a request for more than 64 KB to grow a block is refused by the test allocator; requests of 2^53 bytes or more may be refused by the wrapper itself");
}
void mc::register_spaces(const std::string &prop, bool th)
{
    PROP = prop; G = new User; if (prop == "S15") s15(th); else if (prop == "S16") s16(th); else s17(th);
}
