// h_mex: M01 (the MATLAB gateway of SLIP_LU), M02 (the MATLAB gateways of AMD, COLAMD and SYMAMD), run against a stand-in for MATLAB
#include "slipx.h"
#include "mexmock/mex.h"
#include "graphs.h"
#include <algorithm>
#include <csetjmp>
#include <map>
#include <memory>
#include <set>
extern "C" {
#include "amd.h"
#include "colamd.h"
void slip_mexFunction(int, mxArray *[], int, const mxArray *[]);
void amd_mexFunction(int, mxArray *[], int, const mxArray *[]);
void colamd_mexFunction(int, mxArray *[], int, const mxArray *[]);
void symamd_mexFunction(int, mxArray *[], int, const mxArray *[]);
}
// ---------------------------------------------------------------- MATLAB
enum Kind { FULL, SPARSE, CHARS, CELLS, STRUCTURE, SINGLE, LOGICAL };
struct mxArray_tag { Kind k = FULL; bool cplx = false, ours = false; size_t m = 0, n = 0; double *x = nullptr; mwIndex *p = nullptr, *i = nullptr; std::string s; std::vector<mxArray *> cell; std::map<std::string, mxArray *> field; };
namespace ml {
static std::set<void *> blocks; static std::set<mxArray *> arrays; static jmp_buf jump; static std::string error, printed; static bool inside;
static void *get(size_t n) { void *p = malloc(n ? n : 1); if (!p) abort(); blocks.insert(p); return p; }
static void destroy(mxArray *a) { if (!a) return; for (auto c : a->cell) destroy(c); for (auto &f : a->field) destroy(f.second); if (a->x && blocks.erase(a->x)) free(a->x); if (a->p && blocks.erase(a->p)) free(a->p); if (a->i && blocks.erase(a->i)) free(a->i); arrays.erase(a); delete a; }
static mxArray *make(Kind k, size_t m, size_t n) { mxArray *a = new mxArray_tag; a->k = k; a->m = m; a->n = n; arrays.insert(a); return a; }
static mxArray *full(size_t m, size_t n, const std::vector<double> &v) { mxArray *a = make(FULL, m, n); a->x = (double *) get(sizeof(double) * m * n); for (size_t k = 0; k < m * n; k++) a->x[k] = v[k]; return a; }
static mxArray *sparse(size_t m, size_t n, const std::vector<double> &v) { mxArray *a = make(SPARSE, m, n); size_t nz = 0; for (double d : v) if (d != 0) nz++; a->x = (double *) get(sizeof(double) * (nz ? nz : 1)); a->i = (mwIndex *) get(sizeof(mwIndex) * (nz ? nz : 1)); a->p = (mwIndex *) get(sizeof(mwIndex) * (n + 1)); nz = 0; for (size_t j = 0; j < n; j++) { a->p[j] = nz; for (size_t i = 0; i < m; i++) if (v[i + j * m] != 0) { a->i[nz] = i; a->x[nz++] = v[i + j * m]; } } a->p[n] = nz; return a; }
static mxArray *chars(const std::string &s) { mxArray *a = make(CHARS, 1, s.size()); a->s = s; return a; }
static mxArray *scalar(double d) { return full(1, 1, {d}); }
static uint64_t hash(const mxArray *a) { if (!a) return 0; uint64_t h = mc::mix(a->k * 2 + a->cplx, a->m * 1000 + a->n); if (a->x) { size_t nz = a->p ? a->p[a->n] : a->m * a->n; h = mc::hbytes(h, a->x, nz * 8); if (a->p) h = mc::hbytes(mc::hbytes(h, a->p, (a->n + 1) * 8), a->i, nz * 8); } h = mc::hbytes(h, a->s.data(), a->s.size()); for (auto c : a->cell) h = mc::mix(h, hash(c)); for (auto &f : a->field) h = mc::mix(mc::hbytes(h, f.first.data(), f.first.size()), hash(f.second)); return h; }
static void owned(mxArray *a, std::set<void *> &b, std::set<mxArray *> &s) { if (!a) return; s.insert(a); b.insert(a->x); b.insert(a->p); b.insert(a->i); for (auto c : a->cell) owned(c, b, s); for (auto &f : a->field) owned(f.second, b, s); }
static int elsewhere(const char *, ...) { REQ(false, "something is printed on the standard output, not in the MATLAB window"); return 0; }
// call a mexFunction the way MATLAB does; true if it returned, false if it raised an error.  Everything it allocated and did not return is released afterwards
typedef void (*Mex)(int, mxArray *[], int, const mxArray *[]);
static bool call(Mex f, int nout, std::vector<mxArray *> &out, std::vector<mxArray *> in)
{
    static mxArray *po[8]; for (auto &p : po) p = nullptr; static uint64_t before; before = 0; for (auto a : in) before = mc::mix(before, hash(a)); error.clear(); printed.clear(); static std::vector<const mxArray *> pi; pi.assign(in.begin(), in.end()); pi.push_back(nullptr); inside = true; SuiteSparse_config.printf_func = f == slip_mexFunction ? elsewhere : mexPrintf; static std::set<void *> pre; static std::set<mxArray *> pra; pre = blocks; pra = arrays;
    static bool ok; ok = false; if (!setjmp(jump)) { f(nout, po, (int) in.size(), pi.data()); ok = true; } inside = false;
    uint64_t after = 0; for (auto a : in) after = mc::mix(after, hash(a)); REQ(before == after, "an input array was changed");
    std::set<void *> kb; std::set<mxArray *> ks; for (auto a : in) owned(a, kb, ks); out.clear(); if (ok) for (int k = 0; k < 8; k++) if (po[k]) { REQ(k < (nout ? nout : 1), "output %d was set, %d were asked for", k + 1, nout); REQ(arrays.count(po[k]), "output %d is not an array", k + 1); owned(po[k], kb, ks); out.push_back(po[k]); }
    size_t nd = 0; std::vector<mxArray *> da; for (auto a : arrays) if (!ks.count(a)) { da.push_back(a); nd += !pra.count(a); } for (auto a : da) { arrays.erase(a); delete a; } std::vector<void *> db; for (auto b : blocks) if (!kb.count(b)) { db.push_back(b); nd += !pre.count(b); } for (auto b : db) { blocks.erase(b); free(b); } 
    if (ok) REQ(nd == 0, "%zu block(s) or array(s) that are not part of the result are left", nd);
    if (ok) for (auto a : out) if (a->x) REQ(blocks.count(a->x), "the data of an output array is not a MATLAB block"); return ok;
}
static void clear() { while (!arrays.empty()) { mxArray *a = *arrays.begin(); arrays.erase(a); delete a; } for (auto b : blocks) free(b); blocks.clear(); }
static std::string str(const mxArray *a) { if (!a) return "nothing"; std::string s; if (a->k == CHARS) return "'" + a->s + "'"; if (a->k == STRUCTURE) { for (auto &f : a->field) s += (s.empty() ? "" : ", ") + f.first + "=" + str(f.second); return "{" + s + "}"; } if (a->k == CELLS) { for (auto c : a->cell) s += " " + str(c); return "cells" + s; } static const char *N[] = {"full", "sparse", "", "", "", "single", "logical"}; s = mc::fmt("%s%s %zu-by-%zu", a->cplx ? "complex " : "", N[a->k], a->m, a->n); if (a->k == SPARSE) for (size_t j = 0; j < a->n; j++) for (size_t q = a->p[j]; q < a->p[j + 1]; q++) s += mc::fmt(" (%zu,%zu)=%.17g", a->i[q] + 1, j + 1, a->x[q]); else if (a->x) for (size_t k = 0; k < a->m * a->n; k++) s += mc::fmt(" %.17g", a->x[k]); return s; }
}
extern "C" {
void *mxMalloc(size_t n) { return ml::get(n); }
void *mxCalloc(size_t n, size_t s) { void *p = ml::get(n * s); memset(p, 0, n * s); return p; }
void *mxRealloc(void *p, size_t n) { if (!p) return ml::get(n); REQ(ml::blocks.erase(p), "mxRealloc of a block that is not live"); void *q = realloc(p, n ? n : 1); ml::blocks.insert(q); return q; }
void mxFree(void *p) { if (!p) return; REQ(ml::blocks.erase(p), "mxFree of a block that is not live"); free(p); }
bool mxIsComplex(const mxArray *a) { return a->cplx; }
bool mxIsSparse(const mxArray *a) { return a->p != nullptr; }
bool mxIsEmpty(const mxArray *a) { return a->m == 0 || a->n == 0; }
bool mxIsStruct(const mxArray *a) { return a->k == STRUCTURE; }
bool mxIsChar(const mxArray *a) { return a->k == CHARS; }
bool mxIsCell(const mxArray *a) { return a->k == CELLS; }
bool mxIsDouble(const mxArray *a) { return a->k == FULL || a->k == SPARSE; }
bool mxIsNumeric(const mxArray *a) { return a->k == FULL || a->k == SPARSE || a->k == SINGLE; }
bool mxIsLogical(const mxArray *a) { return a->k == LOGICAL; }
bool mxIsInf(double x) { return isinf(x); }
bool mxIsNaN(double x) { return isnan(x); }
bool mxIsFinite(double x) { return isfinite(x); }
mxArray *mxGetField(const mxArray *a, mwIndex k, const char *n) { if (a->k != STRUCTURE || k) return nullptr; auto it = a->field.find(n); return it == a->field.end() ? nullptr : it->second; }
int mxGetString(const mxArray *a, char *b, mwSize n) { if (a->k != CHARS || !n) return 1; size_t c = std::min<size_t>(a->s.size(), n - 1); memcpy(b, a->s.data(), c); b[c] = 0; return c < a->s.size(); }
double mxGetScalar(const mxArray *a) { if (a->k == CHARS) return a->s.empty() ? 0 : a->s[0]; return a->x && a->m * a->n ? a->x[0] : 0; }
mwIndex *mxGetJc(const mxArray *a) { return a->p; }
mwIndex *mxGetIr(const mxArray *a) { return a->i; }
double *mxGetDoubles(const mxArray *a) { return (a->k == FULL || a->k == SPARSE) && !a->cplx ? a->x : nullptr; }
double *mxGetPr(const mxArray *a) { return a->x; }
double *mxGetPi(const mxArray *a) { return a->cplx ? a->x : nullptr; }
size_t mxGetM(const mxArray *a) { return a->m; }
size_t mxGetN(const mxArray *a) { return a->n; }
mwSize mxGetNzmax(const mxArray *a) { return a->p ? a->p[a->n] : 0; }
size_t mxGetNumberOfElements(const mxArray *a) { return a->m * a->n; }
mwSize mxGetNumberOfDimensions(const mxArray *) { return 2; }
mxArray *mxCreateDoubleMatrix(mwSize m, mwSize n, mxComplexity) { return ml::full(m, n, std::vector<double>(m * n, 0.0)); }
mxArray *mxCreateDoubleScalar(double x) { return ml::scalar(x); }
mxArray *mxCreateCellMatrix(mwSize m, mwSize n) { mxArray *a = ml::make(CELLS, m, n); a->cell.assign(m * n, nullptr); return a; }
mxArray *mxCreateString(const char *s) { return ml::chars(s); }
int mxSetDoubles(mxArray *a, double *x) { a->x = x; return 1; }
void mxSetPr(mxArray *a, double *x) { a->x = x; }
void mxSetM(mxArray *a, mwSize m) { a->m = m; }
void mxSetN(mxArray *a, mwSize n) { a->n = n; }
void mxSetCell(mxArray *a, mwIndex k, mxArray *v) { REQ(a->k == CELLS && k < a->cell.size(), "mxSetCell out of range"); a->cell[k] = v; }
mxArray *mxGetCell(const mxArray *a, mwIndex k) { return a->cell[k]; }
void mxDestroyArray(mxArray *a) { ml::destroy(a); }
int mexPrintf(const char *f, ...) { va_list a; va_start(a, f); char b[8192]; int n = vsnprintf(b, sizeof b, f, a); va_end(a); ml::printed += b; return n; }
void mexErrMsgTxt(const char *m) { REQ(ml::inside, "an error outside of a call"); ml::error = m ? m : ""; longjmp(ml::jump, 1); }
void mexErrMsgIdAndTxt(const char *, const char *f, ...) { mexErrMsgTxt(f); }
void mexWarnMsgTxt(const char *) {}
int mexCallMATLAB(int no, mxArray *out[], int ni, mxArray *in[], const char *name) { REQ(no == 1 && ni == 1 && !strcmp(name, "sparse"), "mexCallMATLAB of %s", name); mxArray *a = in[0]; REQ(a->k == FULL || a->k == SPARSE, "sparse of something else"); std::vector<double> v(a->m * a->n, 0); if (a->k == FULL) for (size_t k = 0; k < v.size(); k++) v[k] = a->x[k]; else for (size_t j = 0; j < a->n; j++) for (size_t q = a->p[j]; q < a->p[j + 1]; q++) v[a->i[q] + j * a->m] = a->x[q]; out[0] = ml::sparse(a->m, a->n, v); return 0; }
}
// ---------------------------------------------------------------- M01
static mxArray *options(const std::vector<std::pair<std::string, mxArray *>> &f) { mxArray *a = ml::make(STRUCTURE, 1, 1); for (auto &x : f) a->field[x.first] = x.second; return a; }
static ref::Mat scaled(const std::vector<double> &v, int m, int n, ref::Z &s)     // s * v, integers
{
    s = ref::Z(1); for (double d : v) { ref::Q q(d); s = (s * q.den()).exact(ref::Z::gcd(s, q.den())); } ref::Mat M = ref::zeros(m, n); for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) { ref::Q q = ref::Q(v[i + j * m]) * ref::Q(s, ref::Z(1)); M[i][j] = q.num(); } return M;
}
static double rounded(const ref::Q &q, mpfr_rnd_t r) { ref::Mode m; mpfr_t f; mpfr_init2(f, 53); mpfr_set_q(f, q.v, r); double d = mpfr_get_d(f, r); mpfr_clear(f); return d; }
enum Sol { DBL, CHR };
// expect: A\b exactly, as doubles or strings; or the error for a singular matrix
static void judge(bool ok, const std::vector<mxArray *> &out, const std::vector<double> &A, const std::vector<double> &b, int n, int nb, Sol sol, const char *where)
{
    ref::Z sa, sb; ref::Mat Z = scaled(A, n, n, sa), R = scaled(b, n, nb, sb), X; ref::Z d = ref::det_solve(Z, R, X); bool sing = d == ref::Z(0);
    if (sing) { REQ(!ok, "%s a singular matrix is accepted", where); REQ(ml::error.find("singular") != std::string::npos, "%s a singular matrix: %s", where, ml::error.c_str()); mc::outcome(1); return; }
    REQ(ok, "%s error: %s", where, ml::error.c_str()); REQ(out.size() == 1 && out[0], "%s %zu outputs", where, out.size()); mxArray *x = out[0]; REQ(x->m == (size_t) n && x->n == (size_t) nb, "%s the result is %zu-by-%zu", where, x->m, x->n); mc::outcome(0);
    REQ(x->k == (sol == DBL ? FULL : CELLS), "%s the result has another form than asked for", where);
    for (int j = 0; j < nb; j++) for (int i = 0; i < n; i++) { ref::Q q = ref::Q(X[i][j] * sa, d * sb); size_t k = i + (size_t) j * n; if (sol == DBL) { double w = rounded(q, MPFR_RNDD), u = rounded(q, MPFR_RNDU); REQ(x->x[k] == w || x->x[k] == u, "%s x(%d,%d) is %.17g, the exact value %s lies between %.17g and %.17g", where, i + 1, j + 1, x->x[k], q.str().c_str(), w, u); } else { mxArray *c = x->cell[k]; REQ(c && c->k == CHARS, "%s x{%d,%d} is not a string", where, i + 1, j + 1); REQ(c->s == q.str(), "%s x{%d,%d} is '%s', the exact value is %s", where, i + 1, j + 1, c->s.c_str(), q.str().c_str()); } }
}
static mxArray *columns(int m, const std::vector<std::vector<std::pair<int, double>>> &c)
{
    size_t nz = 0, n = c.size(), k = 0; for (auto &q : c) nz += q.size(); mxArray *A = ml::make(SPARSE, m, n); A->p = (mwIndex *) ml::get(sizeof(mwIndex) * (n + 1)); A->i = (mwIndex *) ml::get(sizeof(mwIndex) * (nz + 1)); A->x = (double *) ml::get(8 * (nz + 1));
    for (size_t j = 0; j < n; j++) { A->p[j] = k; for (auto &e : c[j]) { A->i[k] = e.first; A->x[k++] = e.second; } } A->p[n] = k; return A;
}
static const double AV[] = {0, 1, -1, 2, 0.5, -7, 0.125, 1e20, 9223372036854775808.0, 123456789.0};
static const char *ORD[] = {"none", "colamd", "amd"}, *PIV[] = {"smallest", "diagonal", "first", "tol smallest", "tol largest", "largest"}, *SOL[] = {"double", "vpa", "char"};
static std::vector<double> mat(uint64_t i, int cells, int radix) { std::vector<double> v; for (int k = 0; k < cells; k++) { v.push_back(AV[i % radix]); i /= radix; } return v; }
static uint64_t outhash(bool ok, const std::vector<mxArray *> &o) { uint64_t h = ok; for (auto a : o) h = mc::mix(h, ml::hash(a)); return mc::hbytes(h, ml::error.data(), ml::error.size()); }
static void m01(bool th)
{
    mc::outcome_name(0, "solved"); mc::outcome_name(1, "singular"); mc::outcome_name(2, "refused");
    int R = th ? 8 : 6; uint64_t nm = mc::ipow(R, 4); static const std::vector<std::vector<double>> B2 = {{1, 0}, {-3, 0.5}, {1e20, 7}, {1, 0, 0, 1}, {0, 0}};
    mc::add("systems-2x2", nm * 5 * 4 * 3 * (th ? 6 : 2), [=](uint64_t i) {
        mc::Dec D(i); int b = (int) D(5), s = (int) D(4), o = (int) D(3), p = (int) D(th ? 6 : 2); if (!th) p = p ? 5 : 3; auto A = mat(D(nm), 4, R); auto &B = B2[b]; int nb = (int) B.size() / 2; std::vector<std::pair<std::string, mxArray *>> f = {{"order", ml::chars(ORD[o])}, {"pivot", ml::chars(PIV[p])}}; if (s < 3) f.push_back({"solution", ml::chars(SOL[s])});
        std::vector<mxArray *> out; bool ok = ml::call(slip_mexFunction, 1, out, {ml::sparse(2, 2, A), ml::full(2, nb, B), options(f)}); mc::step(outhash(ok, out)); judge(ok, out, A, B, 2, nb, s == 1 || s == 2 ? CHR : DBL, ""); ml::clear(); mc::trace();
    }, [=](uint64_t i) { mc::Dec D(i); int b = (int) D(5), s = (int) D(4), o = (int) D(3), p = (int) D(th ? 6 : 2); if (!th) p = p ? 5 : 3; auto A = mat(D(nm), 4, R); std::string r = "A ="; for (double d : A) r += mc::fmt(" %.17g", d); r += ", b ="; for (double d : B2[b]) r += mc::fmt(" %.17g", d); return r + mc::fmt(" (by columns), order %s, pivot %s, solution %s", ORD[o], PIV[p], s < 3 ? SOL[s] : "not given"); });
    // larger sparse systems: all patterns of a 3-by-3 matrix, values spread over the grid
    mc::add("patterns-3x3", 512 * 10 * 3 * 2, [=](uint64_t i) {
        mc::Dec D(i); int s = (int) D(2), o = (int) D(3), v = (int) D(10); int m = (int) D(512); std::vector<double> A(9, 0), B = {1, AV[v], -2}; for (int k = 0; k < 9; k++) if (m >> k & 1) A[k] = AV[1 + (k * 4 + v) % 9];
        std::vector<mxArray *> out; bool ok = ml::call(slip_mexFunction, 1, out, {ml::sparse(3, 3, A), ml::full(3, 1, B), options({{"order", ml::chars(ORD[o])}, {"solution", ml::chars(s ? "char" : "double")}})}); mc::step(outhash(ok, out)); judge(ok, out, A, B, 3, 1, s ? CHR : DBL, ""); ml::clear(); mc::trace();
    }, [=](uint64_t i) { mc::Dec D(i); int s = (int) D(2), o = (int) D(3), v = (int) D(10); int m = (int) D(512); return mc::fmt("3-by-3 pattern %d with values from number %d on, order %s, solution %s", m, v, ORD[o], s ? "char" : "double"); });
    // one odd value at every place of A and of b, and pairs of them
    static const double OV[] = {0.5, -0.75, 1e20, 9223372036854775808.0, -9223372036854775808.0, 9223372036854774784.0, 1e300, 7.62939453125e-06, -1e150, -0.0, 4503599627370497.5, NAN, INFINITY, -INFINITY}; static const int NV = 14;
    auto odd = [=](int e, int v, std::vector<double> &A, std::vector<double> &B) { (e < 9 ? A[e] : B[e - 9]) = OV[v]; };
    mc::add("odd-values", 21ull * NV * 21 * NV * 2, [=](uint64_t i) {
        mc::Dec D(i); int s = (int) D(2), v2 = (int) D(NV), e2 = (int) D(21), v1 = (int) D(NV), e1 = (int) D(21); if (e2 <= e1 && !(e2 == e1 && v2 == v1)) return; if (!th && e2 != e1 && (e1 * 3 + e2 + v1 + v2 * 5) % 3) return; std::vector<double> A = {3, 1, 0, 0, 2, 5, 1, 0, 4}, B = {1, 2, 3, 4, 5, 6, 7, 8, 9, 0, 0, 1}; odd(e1, v1, A, B); odd(e2, v2, A, B); bool bad = v1 >= 11 || v2 >= 11;
        std::vector<mxArray *> out; bool ok = ml::call(slip_mexFunction, 1, out, {ml::sparse(3, 3, A), ml::full(3, 4, B), options({{"solution", ml::chars(s ? "char" : "double")}})}); mc::step(outhash(ok, out)); if (bad) { REQ(!ok, "NaN or Inf is accepted"); mc::outcome(2); } else judge(ok, out, A, B, 3, 4, s ? CHR : DBL, ""); ml::clear(); mc::trace();
    }, [=](uint64_t i) { mc::Dec D(i); int s = (int) D(2), v2 = (int) D(NV), e2 = (int) D(21), v1 = (int) D(NV), e1 = (int) D(21); auto at = [](int e) { return e < 9 ? mc::fmt("A(%d,%d)", e % 3 + 1, e / 3 + 1) : mc::fmt("b(%d,%d)", (e - 9) % 3 + 1, (e - 9) / 3 + 1); }; return mc::fmt("%s = %.17g, %s = %.17g, solution %s", at(e1).c_str(), OV[v1], at(e2).c_str(), OV[v2], s ? "char" : "double"); });
    // more rows, or more right-hand sides, than 16 bits count
    mc::add("beyond-16-bits", 3 * 4 * 3, [=](uint64_t i) {
        mc::Dec D(i); int o = (int) D(3), t = (int) D(4), sv = (int) D(3); int n = t < 2 ? 70001 : 2, nb = t < 2 ? 1 : 70001; std::vector<std::vector<std::pair<int, double>>> c(n);
        if (t < 2) for (int j = 0; j < n; j++) { int r = t ? n - 1 - j : j; if (t == 0 && j) c[j].push_back({j - 1, j % 3 ? 1 : -1}); c[j].push_back({r, j % 5 ? 1 : -1}); } else { c[0] = {{0, 2}, {1, t == 2 ? 1. : -1.}}; c[1] = {{1, 0.5}}; }
        std::vector<double> A, X((size_t) n * nb), B((size_t) n * nb, 0); for (size_t k = 0; k < X.size(); k++) X[k] = (long) ((k * 7 + k / 1000) % 11) - 5; for (int q = 0; q < nb; q++) for (int j = 0; j < n; j++) for (auto &e : c[j]) B[e.first + (size_t) q * n] += e.second * X[j + (size_t) q * n];
        std::vector<mxArray *> out; bool ok = ml::call(slip_mexFunction, 1, out, {columns(n, c), ml::full(n, nb, B), options({{"order", ml::chars(ORD[o])}, {"pivot", ml::chars(PIV[(i / 3) % 6])}, {"solution", ml::chars(SOL[sv])}})}); mc::step(outhash(ok, out));
        REQ(ok, "error: %s", ml::error.c_str()); REQ(out.size() == 1 && out[0] && out[0]->m == (size_t) n && out[0]->n == (size_t) nb && out[0]->k == (sv ? CELLS : FULL), "the result has another size or form than asked for");
        for (size_t k = 0; k < X.size(); k++) if (!sv) REQ(out[0]->x[k] == X[k], "x(%zu) is %.17g, expected %g", k + 1, out[0]->x[k], X[k]); else { mxArray *e = out[0]->cell[k]; REQ(e && e->s == mc::fmt("%g", X[k] == 0 ? 0.0 : X[k]), "x(%zu) is '%s', expected %g", k + 1, e ? e->s.c_str() : "", X[k]); }
        mc::outcome(0); ml::clear(); mc::trace();
    }, [=](uint64_t i) { mc::Dec D(i); int o = (int) D(3), t = (int) D(4), sv = (int) D(3); return mc::fmt("%s, order %s, pivot %s, solution %s", t == 0 ? "bidiagonal matrix of dimension 70001" : t == 1 ? "reversed diagonal of dimension 70001" : "2-by-2 matrix with 70001 right-hand sides", ORD[o], PIV[(i / 3) % 6], SOL[sv]); });
    // larger systems
    static const int LN[] = {5, 8, 12, 16, 24}; int nl = th ? 5 : 4;
    auto larger = [=](int t, int n, int vals, int flaw) { Adj g = relabel(structured_graph(t, n), vals % 4); std::vector<double> A(n * n, 0.0); for (int j = 0; j < n; j++) for (int r = 0; r < n; r++) if (g[r][j] || r == j) { int h = (r * 5 + j * 11 + vals * 3) % 13; A[r + j * n] = (h % 2 ? -1 : 1) * (vals == 0 ? 1 + h : vals == 1 ? 0.5 * (1 + h) : vals == 2 ? 1e6 + h : (h % 3 ? 1.0 / (1 << h) : 3.0)); if (vals == 0 && r == j && h % 3 == 0) A[r + j * n] = 0; } if (flaw == 1) for (int r = 0; r < n; r++) A[r + (n - 1) * n] = A[r]; if (flaw == 2) for (int j = 0; j < n; j++) A[n / 2 + j * n] = 0; return A; };
    mc::add("larger-systems", (uint64_t) NSTRUCT * nl * 4 * 3 * 3 * 6 * 2, [=](uint64_t i) {
        mc::Dec D(i); int s = (int) D(2), p = (int) D(6), o = (int) D(3), flaw = (int) D(3), vals = (int) D(4), t = (int) D(NSTRUCT), n = LN[D(nl)]; if (!th && n > 8 && (p + o + s + vals) % 3) return; auto A = larger(t, n, vals, flaw); int nb = 1 + s; std::vector<double> B; for (int k = 0; k < n * nb; k++) B.push_back((k * 7 + vals) % 11 - 5 + (vals == 3 ? 0.25 : 0));
        std::vector<mxArray *> out; bool ok = ml::call(slip_mexFunction, 1, out, {ml::sparse(n, n, A), ml::full(n, nb, B), options({{"order", ml::chars(ORD[o])}, {"pivot", ml::chars(PIV[p])}, {"solution", ml::chars(s ? "char" : "double")}})}); mc::step(outhash(ok, out)); judge(ok, out, A, B, n, nb, s ? CHR : DBL, ""); ml::clear(); mc::trace();
    }, [=](uint64_t i) { mc::Dec D(i); int s = (int) D(2), p = (int) D(6), o = (int) D(3), flaw = (int) D(3), vals = (int) D(4), t = (int) D(NSTRUCT), n = LN[D(nl)]; return mc::fmt("%s of dimension %d with values %d%s, order %s, pivot %s, %s", struct_name(t), n, vals, flaw == 1 ? ", first and last column equal" : flaw == 2 ? ", an empty row" : "", ORD[o], PIV[p], s ? "char, 2 columns" : "double, 1 column"); });
    // arguments: every pair of option settings, legal or not
    struct Opt { const char *name; int kind; const char *s; double d; bool legal; int sol; };     // kind 0: string, 1: number, 2: none
    static const Opt OP[] = {{"", 2, "", 0, true, -1}, {"order", 0, "none", 0, true, -1}, {"order", 0, "amd", 0, true, -1}, {"order", 0, "colamd", 0, true, -1}, {"order", 0, "AMD", 0, false, -1}, {"order", 0, "", 0, false, -1}, {"order", 1, "", 1, false, -1}, {"pivot", 0, "smallest", 0, true, -1}, {"pivot", 0, "diagonal", 0, true, -1}, {"pivot", 0, "first", 0, true, -1}, {"pivot", 0, "tol smallest", 0, true, -1}, {"pivot", 0, "tol largest", 0, true, -1}, {"pivot", 0, "largest", 0, true, -1}, {"pivot", 0, "small", 0, false, -1}, {"pivot", 1, "", 2, false, -1}, {"tol", 1, "", 1, true, -1}, {"tol", 1, "", 1e-9, true, -1}, {"tol", 1, "", 0, false, -1}, {"tol", 1, "", -0.5, false, -1}, {"tol", 1, "", 1.0000001, false, -1}, {"tol", 1, "", NAN, false, -1}, {"tol", 1, "", INFINITY, false, -1}, {"solution", 0, "double", 0, true, 0}, {"solution", 0, "vpa", 0, true, 1}, {"solution", 0, "char", 0, true, 2}, {"solution", 0, "string", 0, false, -1}, {"solution", 1, "", 3, false, -1}, {"digits", 1, "", 2, true, -1}, {"digits", 1, "", 536870912, true, -1}, {"digits", 1, "", 1, false, -1}, {"digits", 1, "", 536870913, false, -1}, {"digits", 1, "", 2.5, false, -1}, {"digits", 1, "", NAN, false, -1}, {"print", 1, "", 0, true, -1}, {"print", 1, "", 1, true, -1}, {"print", 1, "", 3, true, -1}, {"print", 1, "", -4, true, -1}, {"print", 1, "", 17, true, -1}, {"print", 1, "", 2.5, true, -1}, {"verbose", 1, "", 3, true, -1}};
    static const int NO = sizeof OP / sizeof *OP; static const std::vector<double> SA = {2, 1, 0, 3}, SB = {1, 1};
    auto arr = [](const Opt &o) { return o.kind == 0 ? ml::chars(o.s) : ml::scalar(o.d); };
    auto nameof = [](const Opt &o) { return o.kind == 2 ? std::string("nothing") : std::string(o.name) + "=" + (o.kind == 0 ? "'" + std::string(o.s) + "'" : mc::fmt("%g", o.d)); };
    auto chosen = [=](int a, int b, int c) { std::vector<int> v; for (int k : {a, b, c}) if (OP[k].kind != 2) { bool dup = false; for (int l : v) dup = dup || !strcmp(OP[l].name, OP[k].name); if (!dup) v.push_back(k); } return v; };
    auto verdict = [=](const std::vector<int> &v, int &sol) { bool legal = true, tolpiv = true; sol = 0; for (int k : v) if (!strcmp(OP[k].name, "pivot") && OP[k].legal) tolpiv = !strncmp(OP[k].s, "tol", 3); for (int k : v) { if (!strcmp(OP[k].name, "tol") && !tolpiv) continue; if (!OP[k].legal) legal = false; if (OP[k].sol >= 0) sol = OP[k].sol; } return legal; };
    mc::add("option-triples", (uint64_t) NO * NO * NO, [=](uint64_t i) {
        mc::Dec D(i); int a = (int) D(NO), b = (int) D(NO), c = (int) D(NO); auto v = chosen(a, b, c); std::vector<std::pair<std::string, mxArray *>> f; int sol; bool legal = verdict(v, sol);
        // the stack holds the strings of the call before: an option that is not a string must not pick one of them up
        std::vector<mxArray *> out; ml::call(slip_mexFunction, 1, out, {ml::sparse(2, 2, SA), ml::full(2, 1, SB), options({{"solution", ml::chars("char")}})}); ml::clear(); for (int k : v) f.push_back({OP[k].name, arr(OP[k])});
        bool ok = ml::call(slip_mexFunction, 1, out, {ml::sparse(2, 2, SA), ml::full(2, 1, SB), options(f)}); mc::nstep(1); mc::step(outhash(ok, out)); bool pr = false; for (int k : v) if (!strcmp(OP[k].name, "print")) pr = OP[k].d >= 1; REQ(legal && pr ? !ml::printed.empty() : ml::printed.empty(), "%sprinted", pr ? "nothing is " : ""); if (legal) judge(ok, out, SA, SB, 2, 1, sol ? CHR : DBL, ""); else { REQ(!ok, "accepted"); mc::outcome(2); } ml::clear(); mc::trace();
    }, [=](uint64_t i) { mc::Dec D(i); int a = (int) D(NO), b = (int) D(NO), c = (int) D(NO); std::string s; for (int k : chosen(a, b, c)) s += " " + nameof(OP[k]); return "options:" + s; });
    // kinds and shapes of the arguments, number of arguments and results, special values
    static const char *FL[] = {"none", "A full", "A complex", "A not square", "A single", "A logical", "A has Inf", "A has -Inf", "A has NaN", "b sparse", "b complex", "b too short", "b single", "b has Inf", "b has NaN", "no arguments", "one argument", "two arguments", "four arguments", "two results", "no result asked for", "option is a number", "option is empty", "b has two columns"}; static const int NF = 24;
    auto flawed = [=](int fl, int s, std::vector<mxArray *> &in, int &nout) { std::vector<double> A = SA, B = SB; nout = 1; if (fl >= 6 && fl <= 8) A[s % 2 ? 3 : 0] = fl == 6 ? INFINITY : fl == 7 ? -INFINITY : NAN; if (fl == 13 || fl == 14) B[s % 2] = fl == 13 ? INFINITY : NAN; if (fl == 23) B = {1, 1, 1, 1}; mxArray *a = fl == 1 ? ml::full(2, 2, A) : fl == 3 ? ml::sparse(2, 3, {1, 0, 0, 1, 1, 1}) : ml::sparse(2, 2, A), *b = fl == 9 ? ml::sparse(2, 1, B) : fl == 11 ? ml::full(1, 1, {1}) : ml::full(2, fl == 23 ? 2 : 1, B), *o = fl == 21 ? ml::scalar(3) : fl == 22 ? ml::full(0, 0, {}) : options({{"solution", ml::chars(s & 2 ? "char" : "double")}, {"pivot", ml::chars(PIV[s % 6])}}); if (fl == 2) a->cplx = true; if (fl == 4) a->k = SINGLE; if (fl == 5) a->k = LOGICAL; if (fl == 10) b->cplx = true; if (fl == 12) b->k = SINGLE; in = {a, b, o}; if (fl == 15) in.clear(); if (fl == 16) in.resize(1); if (fl == 17) in.resize(2); if (fl == 18) in.push_back(ml::scalar(1)); if (fl == 19) nout = 2; if (fl == 20) nout = 0; };
    auto good = [](int fl) { return fl == 0 || fl == 17 || fl == 20 || fl == 21 || fl == 22 || fl == 23; };
    mc::add("histories-of-good-and-bad-calls", (uint64_t) NF * NF * NF * 4, [=](uint64_t i) {
        mc::Dec D(i); int s = (int) D(4); int fl[3] = {(int) D(NF), (int) D(NF), (int) D(NF)}; std::string hist;
        for (int k = 0; k < 3; k++) { std::vector<mxArray *> in, out; int nout; flawed(fl[k], s + k, in, nout); bool ok = ml::call(slip_mexFunction, nout, out, in); mc::step(outhash(ok, out)); std::string w = mc::fmt("[call %d]", k + 1); if (good(fl[k])) { bool chr = (fl[k] == 0 || fl[k] == 20 || fl[k] == 23) && ((s + k) & 2); std::vector<double> B = SB; if (fl[k] == 23) B = {1, 1, 1, 1}; judge(ok, out, SA, B, 2, fl[k] == 23 ? 2 : 1, chr ? CHR : DBL, w.c_str()); } else { REQ(!ok, "%s accepted", w.c_str()); REQ(!ml::error.empty(), "%s an error without a message", w.c_str()); mc::outcome(2); } ml::clear(); }
        mc::trace();
    }, [=](uint64_t i) { mc::Dec D(i); int s = (int) D(4); std::string r = mc::fmt("setting %d, flaws of three calls:", s); for (int k = 0; k < 3; k++) r += mc::fmt(" [%s]", FL[D(NF)]); return r; });
    mc::assume("MATLAB is a stand-in: the documented behaviour of the mx and mex functions the gateways call, 64-bit indices, memory that never runs out, all blocks of a call released after it; the .m files are not run");
}
// ---------------------------------------------------------------- M02
static std::vector<double> pat(uint64_t i, int m, int n) { std::vector<double> v; for (int k = 0; k < m * n; k++) v.push_back(i >> k & 1 ? 1 + k : 0); return v; }
static void expect_perm(const mxArray *P, const std::vector<long> &w, const char *what) { REQ(P && P->k == FULL && P->m * P->n == w.size() && (P->m == 1 || w.empty()), "%s: not a row vector of %zu", what, w.size()); for (size_t k = 0; k < w.size(); k++) REQ(P->x[k] == w[k] + 1, "%s: position %zu is %g, the library says %ld", what, k + 1, P->x[k], w[k] + 1); }
static void m02(bool th)
{
    mc::outcome_name(0, "ordered"); mc::outcome_name(2, "refused"); static const int DM[] = {1, 2, 3, 2, 3, 4, 0}, DN[] = {1, 2, 3, 3, 2, th ? 4 : 3, 0}; typedef SuiteSparse_long lng;
    static const double KV[] = {10, 0, 1, -1, 0.25}; static const int NK = 5;
    auto gate = [=](int which, int fullm, int nout, int nk, int kv, int m, int n, const std::vector<double> &v) {
            std::vector<double> kn; if (nk > 0) kn.push_back(KV[kv]); if (nk > 1) kn.push_back(which == 2 ? 0 : KV[(kv + 1) % NK]); if (nk > 2) kn.push_back(which == 2 ? 7 : 0); if (which == 0 && nk == 1) kn[0] = KV[kv];
            std::vector<mxArray *> in = {fullm ? ml::full(m, n, v) : ml::sparse(m, n, v)}, out; if (nk) in.push_back(ml::full(1, nk, kn)); bool ok = ml::call(which == 0 ? amd_mexFunction : which == 1 ? colamd_mexFunction : symamd_mexFunction, nout, out, in); mc::step(outhash(ok, out)); std::string e = ml::error;
            if (which != 1 && m != n) { REQ(!ok, "a matrix that is not square is accepted"); mc::outcome(2); ml::clear(); mc::trace(); return; }
            REQ(ok, "error: %s", e.c_str()); REQ((int) out.size() == (nout == 2 ? 2 : 1), "%zu results", out.size()); REQ(ml::printed.empty(), "printed although not asked to: %s", ml::printed.c_str());
            std::vector<lng> Ap(n + 1, 0), Ai; for (int j = 0; j < n; j++) { for (int r = 0; r < m; r++) if (v[r + j * m] != 0) Ai.push_back(r); Ap[j + 1] = Ai.size(); } size_t nz = Ai.size(); Ai.push_back(0); std::vector<long> w(n);
            if (which == 0) { double C[AMD_CONTROL], I[AMD_INFO]; amd_l_defaults(C); if (nk > 0) C[AMD_DENSE] = kn[0]; if (nk > 1) C[AMD_AGGRESSIVE] = kn[1]; std::vector<lng> P(n + 1); int r = (int) amd_l_order(n, Ap.data(), Ai.data(), P.data(), C, I); REQ(r == AMD_OK, "the library returns %d", r); for (int k = 0; k < n; k++) w[k] = P[k]; expect_perm(out[0], w, "P"); if (nout == 2) { REQ(out[1]->m * out[1]->n == AMD_INFO, "Info has %zu entries", out[1]->m * out[1]->n); for (int k = 0; k < AMD_INFO; k++) if (k != AMD_MEMORY) REQ(out[1]->x[k] == I[k], "Info (%d) is %g, the library says %g", k + 1, out[1]->x[k], I[k]); } }
            else { double kb[COLAMD_KNOBS]; lng st[COLAMD_STATS]; colamd_l_set_defaults(kb); std::vector<lng> P(n + 1); if (nk > 0) kb[COLAMD_DENSE_ROW] = kn[0]; if (which == 1) { if (nk > 1) kb[COLAMD_DENSE_COL] = kn[1]; lng al = (lng) colamd_l_recommended(nz, m, n); std::vector<lng> W(al, 0); std::copy(Ai.begin(), Ai.begin() + nz, W.begin()); std::copy(Ap.begin(), Ap.end(), P.begin()); REQ(colamd_l(m, n, al, W.data(), P.data(), kb, st), "the library refuses the matrix"); } else REQ(symamd_l(n, Ai.data(), Ap.data(), P.data(), kb, st, calloc, free), "the library refuses the matrix"); for (int k = 0; k < n; k++) w[k] = P[k]; expect_perm(out[0], w, "P"); if (nout == 2) { REQ(out[1]->m * out[1]->n == COLAMD_STATS, "stats has %zu entries", out[1]->m * out[1]->n); for (int k = 0; k < COLAMD_STATS; k++) REQ(out[1]->x[k] == st[k] + (k == COLAMD_INFO1 || k == COLAMD_INFO2), "stats (%d) is %g, the library says %ld", k + 1, out[1]->x[k], (long) st[k]); } }
            mc::outcome(0); ml::clear(); mc::trace();
    };
    for (int d = 0; d < 7; d++) {
        int m = DM[d], n = DN[d]; uint64_t np = 1ull << (m * n);
        // which: amd, colamd, symamd; the matrix sparse or full; 0..3 knobs; one or two results
        mc::add(mc::fmt("gateways-%dx%d", m, n), np * 3 * 2 * 3 * 4 * NK, [=](uint64_t i) {
            mc::Dec D(i); int which = (int) D(3), fullm = (int) D(2), nout = (int) D(3), nk = (int) D(4), kv = (int) D(NK); auto v = pat(D(np), m, n); if (th == false && np > 1000 && kv > 1) return;
            gate(which, fullm, nout, nk, kv, m, n, v);
        }, [=](uint64_t i) { mc::Dec D(i); int which = (int) D(3), fullm = (int) D(2), nout = (int) D(3), nk = (int) D(4), kv = (int) D(NK); uint64_t p = D(np); return mc::fmt("%s of the %s %d-by-%d pattern %llu, %d knobs from %g on, %d results", which == 0 ? "amd2" : which == 1 ? "colamd2" : "symamd2", fullm ? "full" : "sparse", m, n, (unsigned long long) p, nk, KV[kv], nout); });
    }
    // more rows and columns than 16 bits count: nothing off the diagonal, a path, a tree, a star, the last two numbered by a congruence
    mc::add("beyond-16-bits", 3 * 4 * 2, [=](uint64_t i) {
        mc::Dec D(i); int which = (int) D(3), t = (int) D(4), nk = (int) D(2); const int n = 70001; std::vector<std::vector<lng>> c(n); auto L = [&](long v) { return t < 2 ? v : v * 25013 % n; };
        for (int j = 0; j < n; j++) c[L(j)].push_back(L(j)); auto edge = [&](long a, long b) { c[L(a)].push_back(L(b)); c[L(b)].push_back(L(a)); }; for (int j = 1; j < n; j++) { if (t == 1) edge(j - 1, j); if (t == 2) edge((j - 1) / 2, j); if (t == 3) edge(j % 300 ? j - j % 300 : 0, j); } for (auto &q : c) std::sort(q.begin(), q.end());
        std::vector<std::vector<std::pair<int, double>>> cv(n); std::vector<lng> Ap = {0}, Ai; for (int j = 0; j < n; j++) { for (lng r : c[j]) { Ai.push_back(r); cv[j].push_back({(int) r, 1.0}); } Ap.push_back(Ai.size()); } size_t nz = Ai.size(); Ai.push_back(0); std::vector<lng> P(n + 1, 0); std::vector<double> st, kn; if (nk) kn = {5};
        std::vector<mxArray *> in = {columns(n, cv)}, out; if (nk) in.push_back(ml::full(1, 1, kn)); bool ok = ml::call(which == 0 ? amd_mexFunction : which == 1 ? colamd_mexFunction : symamd_mexFunction, 2, out, in); mc::step(outhash(ok, out)); REQ(ok && out.size() == 2, "error: %s", ml::error.c_str());
        if (which == 0) { double C[AMD_CONTROL], I[AMD_INFO]; amd_l_defaults(C); if (nk) C[AMD_DENSE] = 5; REQ(amd_l_order(n, Ap.data(), Ai.data(), P.data(), C, I) == AMD_OK, "the library refuses the matrix"); st.assign(I, I + AMD_INFO); }
        else { lng s[COLAMD_STATS]; double kb[COLAMD_KNOBS]; colamd_l_set_defaults(kb); if (nk) kb[COLAMD_DENSE_ROW] = 5; if (which == 1) { lng al = (lng) colamd_l_recommended(nz, n, n); std::vector<lng> W(al, 0); std::copy(Ai.begin(), Ai.begin() + nz, W.begin()); std::copy(Ap.begin(), Ap.end(), P.begin()); REQ(colamd_l(n, n, al, W.data(), P.data(), kb, s), "the library refuses the matrix"); } else REQ(symamd_l(n, Ai.data(), Ap.data(), P.data(), kb, s, calloc, free), "the library refuses the matrix"); for (int k = 0; k < COLAMD_STATS; k++) st.push_back(s[k] + (k == COLAMD_INFO1 || k == COLAMD_INFO2)); }
        std::vector<long> w(P.begin(), P.begin() + n); expect_perm(out[0], w, "P"); REQ(out[1]->m * out[1]->n == st.size(), "the statistics have %zu entries", out[1]->m * out[1]->n); for (size_t k = 0; k < st.size(); k++) if ((which || k <= AMD_DMAX) && (which || k != AMD_MEMORY)) REQ(out[1]->x[k] == st[k], "statistic %zu is %g, the library says %g", k, out[1]->x[k], st[k]);
        mc::outcome(0); ml::clear(); mc::trace();
    }, [=](uint64_t i) { mc::Dec D(i); int which = (int) D(3), t = (int) D(4), nk = (int) D(2); return mc::fmt("%s of a %s of 70001 nodes, %s", which == 0 ? "amd2" : which == 1 ? "colamd2" : "symamd2", t == 0 ? "diagonal" : t == 1 ? "path" : t == 2 ? "binary tree" : "star of stars", nk ? "one knob" : "defaults"); });
    // larger matrices, in which absorption, dense rows and supervariables matter
    uint64_t NL = nladder(th); auto big = [=](uint64_t p, int form, int &m, int &n) { Adj g = laddered(p, th); int N = (int) g.size(); m = N; n = form == 2 ? 2 * N / 3 : N; std::vector<double> v(m * n, 0.0); for (int j = 0; j < n; j++) for (int r = 0; r < m; r++) if (form == 0 ? g[r][j] || r == j : form == 1 ? g[r][j] && (r * 7 + j * 3) % 5 < 3 : g[r][j] || (r + j) % 29 == 0) v[r + j * m] = 1 + r; return v; };
    mc::add("larger", NL * 3 * 3 * 2 * 4 * NK, [=](uint64_t i) {
        mc::Dec D(i); int form = (int) D(3), which = (int) D(3), fullm = (int) D(2), nk = (int) D(4), kv = (int) D(NK); uint64_t p = D(NL); if (!th && (fullm ? kv != (int) (p % NK) : (p + kv + nk) % 2)) return; int m, n; auto v = big(p, form, m, n); if (m != n && which != 1) return; gate(which, fullm, 2, nk, kv, m, n, v);
    }, [=](uint64_t i) { mc::Dec D(i); int form = (int) D(3), which = (int) D(3), fullm = (int) D(2), nk = (int) D(4), kv = (int) D(NK); uint64_t p = D(NL); return mc::fmt("%s of the %s matrix of the %s, form %d, %d knobs from %g on", which == 0 ? "amd2" : which == 1 ? "colamd2" : "symamd2", fullm ? "full" : "sparse", laddered_str(p, th).c_str(), form, nk, KV[kv]); });
    // sparse arrays built by hand, as a mexFunction can: columns not sorted, repeated entries, row numbers out of range
    auto rawcols = [](uint64_t i, int n) { std::vector<std::vector<lng>> c; for (int j = 0; j < n; j++) { int k = (int) (i % 31); i /= 31; c.push_back(k == 0 ? std::vector<lng>{} : k <= 5 ? std::vector<lng>{k - 2} : std::vector<lng>{(k - 6) / 5 - 1, (k - 6) % 5 - 1}); } return c; };
    mc::add("columns-built-by-hand", 31 * 31 * 31 * 3 * 2, [=](uint64_t i) {
        mc::Dec D(i); int which = (int) D(3), nout = 1 + (int) D(2); const int n = 3; auto c = rawcols(i / 6, n); std::vector<lng> Ap = {0}, Ai; for (auto &q : c) { for (lng r : q) Ai.push_back(r); Ap.push_back(Ai.size()); } size_t nz = Ai.size(); Ai.push_back(0);
        mxArray *A = ml::make(SPARSE, n, n); A->p = (mwIndex *) ml::get(sizeof(mwIndex) * (n + 1)); A->i = (mwIndex *) ml::get(sizeof(mwIndex) * (nz + 1)); A->x = (double *) ml::get(8 * (nz + 1)); for (int j = 0; j <= n; j++) A->p[j] = Ap[j]; for (size_t k = 0; k < nz; k++) { A->i[k] = Ai[k]; A->x[k] = 1; }
        std::vector<mxArray *> out; bool ok = ml::call(which == 0 ? amd_mexFunction : which == 1 ? colamd_mexFunction : symamd_mexFunction, nout, out, {A}); mc::step(outhash(ok, out)); std::vector<lng> P(n + 1, 0); std::vector<double> st; bool fine;
        if (which == 0) { double I[AMD_INFO]; fine = amd_l_order(n, Ap.data(), Ai.data(), P.data(), nullptr, I) >= 0; st.assign(I, I + AMD_INFO); }
        else { lng s[COLAMD_STATS]; if (which == 1) { lng al = (lng) colamd_l_recommended(nz, n, n); std::vector<lng> W(al, 0); std::copy(Ai.begin(), Ai.begin() + nz, W.begin()); std::copy(Ap.begin(), Ap.end(), P.begin()); fine = colamd_l(n, n, al, W.data(), P.data(), nullptr, s); } else fine = symamd_l(n, Ai.data(), Ap.data(), P.data(), nullptr, s, calloc, free); for (int k = 0; k < COLAMD_STATS; k++) st.push_back(s[k] + (k == COLAMD_INFO1 || k == COLAMD_INFO2)); }
        REQ(ok == fine, "%s, the library %s the matrix", ok ? "accepted" : "error", fine ? "accepts" : "refuses"); mc::outcome(ok ? 0 : 2); if (ok) { REQ((int) out.size() == nout, "%zu results", out.size()); std::vector<long> w(P.begin(), P.begin() + n); expect_perm(out[0], w, "P"); if (nout == 2) { REQ(out[1]->m * out[1]->n == st.size(), "the statistics have %zu entries", out[1]->m * out[1]->n); for (size_t k = 0; k < st.size(); k++) if (which || k != AMD_MEMORY) REQ(out[1]->x[k] == st[k], "statistic %zu is %g, the library says %g", k + 1, out[1]->x[k], st[k]); } }
        ml::clear(); mc::trace();
    }, [=](uint64_t i) { mc::Dec D(i); int which = (int) D(3), nout = 1 + (int) D(2); std::string s; for (auto &q : rawcols(i / 6, 3)) { s += " {"; for (lng r : q) s += mc::fmt(" %ld", (long) r); s += " }"; } return mc::fmt("%s of the 3-by-3 array with columns%s, %d results", which == 0 ? "amd2" : which == 1 ? "colamd2" : "symamd2", s.c_str(), nout); });
    mc::add("verbose-and-wrong-counts", 3 * 5 * 4 * 16, [=](uint64_t i) {
        mc::Dec D(i); int which = (int) D(3), nin = (int) D(5), nout = (int) D(4); auto v = pat(D(16), 2, 2); std::vector<mxArray *> in, out; if (nin > 0) in.push_back(ml::sparse(2, 2, v)); if (nin > 1) in.push_back(ml::full(1, 3, which == 2 ? std::vector<double>{10, 1, 0} : std::vector<double>{10, 10, 1})); if (nin > 2) in.push_back(ml::scalar(1)); if (nin > 3) in.push_back(ml::scalar(1));
        bool ok = ml::call(which == 0 ? amd_mexFunction : which == 1 ? colamd_mexFunction : symamd_mexFunction, nout, out, in); mc::step(outhash(ok, out)); bool defaults = which == 0 && nin == 0, right = defaults ? nout <= 2 : nin >= 1 && nin <= 2 && nout <= 2; if (defaults && nout > 1) { ml::clear(); mc::trace(); return; } REQ(ok == right, "%s", ok ? "accepted" : ml::error.c_str());
        if (ok && defaults) { REQ(out[0]->m * out[0]->n == AMD_CONTROL && out[0]->x[AMD_DENSE] == AMD_DEFAULT_DENSE && out[0]->x[AMD_AGGRESSIVE] == AMD_DEFAULT_AGGRESSIVE, "these are not the defaults"); REQ(ml::printed.empty() == (nout > 0), "the defaults are %sprinted", nout ? "" : "not "); }
        else if (ok) REQ(ml::printed.empty() == (nin == 1), "%sprinted", nin == 1 ? "" : "nothing "); mc::outcome(ok ? 0 : 2); ml::clear(); mc::trace();
    }, [=](uint64_t i) { mc::Dec D(i); int which = (int) D(3), nin = (int) D(5), nout = (int) D(4); return mc::fmt("%s with %d arguments and %d results%s", which == 0 ? "amd2" : which == 1 ? "colamd2" : "symamd2", nin, nout, nin > 1 ? ", printing asked for" : ""); });
    mc::assume("MATLAB is a stand-in: the documented behaviour of the mx and mex functions the gateways call, 64-bit indices, memory that never runs out; the .m files are not run");
}
void mc::register_spaces(const std::string &prop, bool th) { SuiteSparse_config.malloc_func = malloc; SuiteSparse_config.calloc_func = calloc; SuiteSparse_config.realloc_func = realloc; SuiteSparse_config.free_func = free; SuiteSparse_config.printf_func = mexPrintf; if (prop == "M01") m01(th); else m02(th); }
