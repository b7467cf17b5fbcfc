// h_demo: D01 (readers of the demo program), D02 (its command line), D03 (the whole program)
#include "slipx.h"
#include <algorithm>
#include <map>
#include <fcntl.h>
#include <unistd.h>
extern "C" {
SLIP_info SLIP_tripread(SLIP_matrix **, FILE *, SLIP_options *);
SLIP_info SLIP_tripread_double(SLIP_matrix **, FILE *, SLIP_options *);
SLIP_info SLIP_read_dense(SLIP_matrix **, FILE *, SLIP_options *);
SLIP_info SLIP_process_command_line(int, char **, SLIP_options *, char **, char **, SLIP_type *, bool *);
void SLIP_print_options(SLIP_options *);
int sliplu_main(int, char **);
SLIP_info sliplu_initialize() { return SLIP_initialize_expert(xa::xmalloc, xa::xcalloc, xa::xrealloc, xa::xfree); }
}
// ---------------------------------------------------------------- what the demo writes to stdout
struct Quiet {      // stdout goes to a scratch file while this lives
    int keep; FILE *f; Quiet() { fflush(stdout); keep = dup(1); f = tmpfile(); if (!f) { perror("tmpfile"); _exit(3); } dup2(fileno(f), 1); }
    std::string text() { fflush(stdout); std::string s; rewind(f); char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); return s; }
    ~Quiet() { fflush(stdout); dup2(keep, 1); close(keep); fclose(f); }
};
static FILE *open_text(const std::string &s) { static char none[1]; FILE *f = s.empty() ? fmemopen(none, 1, "r") : fmemopen((void *) s.data(), s.size(), "r"); if (s.empty() && f) fgetc(f); REQ(f, "fmemopen"); return f; }
// ---------------------------------------------------------------- files
struct TFile { int m, n; std::vector<std::pair<int, int>> pos; std::vector<std::string> val; };
static const char *IV[] = {"1", "-1", "12", "0", "1234567890123456789012345678901234567890", "-9223372036854775808"}; static const int NIV = 6;
static const char *FV[] = {"1", "-0.5", "0.1", "12.75", "1e10", "-3.25E-3", "0", "1e-5", "123456789.125"}; static const int NFV = 9;
static std::string text(const TFile &t, int style)
{   // 0: plain; 1: no newline at the end; 2: wide; 3: everything on one line
    const char *s = style == 2 ? "   " : " ", *e = style == 3 ? " " : style == 2 ? "  \n" : "\n"; std::string o = mc::fmt("%d%s%d%s%zu%s", t.m, s, t.n, s, t.pos.size(), e);
    for (size_t k = 0; k < t.pos.size(); k++) { o += mc::fmt("%d%s%d%s%s", t.pos[k].first + 1, s, t.pos[k].second + 1, s, t.val[k].c_str()); if (k + 1 < t.pos.size() || (style != 1 && style != 3)) o += e; }
    return o;
}
static bool well(const std::string &s, bool dbl) { char *e; if (s.empty()) return false; if (dbl) { strtod(s.c_str(), &e); return !*e && s[s.size() - 1] != '-'; } size_t i = s[0] == '-'; if (i == s.size()) return false; for (; i < s.size(); i++) if (!isdigit((unsigned char) s[i])) return false; return true; }
static std::vector<std::string> tokens(const std::string &s) { std::vector<std::string> w; std::string c; for (char x : s) if (isspace((unsigned char) x)) { if (!c.empty()) w.push_back(c); c.clear(); } else c += x; if (!c.empty()) w.push_back(c); return w; }
static std::string shown(const std::string &s) { std::string o; for (char c : s) if (c == '\n') o += "\\n"; else o += c; return o; }
// the matrix must hold exactly these entries (explicit zeros may be kept or dropped), the values divided by its scale
static std::string sound(const SLIP_matrix *A) { std::string v = valid(A); return v == "scale factor not positive" && mpq_sgn(A->scale) && mpz_sgn(mpq_denref(A->scale)) > 0 ? "" : v; }   // a scale factor of either sign is a scale factor
static void holds(const SLIP_matrix *A, int m, int n, const std::vector<std::pair<int, int>> &pos, const std::vector<ref::Q> &val)
{
    REQ(A, "no matrix"); std::string v = sound(A); REQ(v.empty(), "%s", v.c_str()); REQ(A->kind == SLIP_CSC && A->type == SLIP_MPZ, "not a sparse integer matrix"); REQ(A->m == m && A->n == n, "%ld-by-%ld instead of %d-by-%d", (long) A->m, (long) A->n, m, n);
    std::map<std::pair<int, int>, ref::Q> want, got; for (size_t k = 0; k < pos.size(); k++) if (!(val[k] == ref::Q(0))) want[pos[k]] = val[k];
    ref::Q sc(A->scale); for (int j = 0; j < n; j++) for (int64_t p = A->p[j]; p < A->p[j + 1]; p++) { ref::Q x(ref::Z(A->x.mpz[p]), ref::Z(1)); if (!(x == ref::Q(0))) got[{(int) A->i[p], j}] = x / sc; }
    REQ(want.size() == got.size(), "%zu non-zero entries instead of %zu", got.size(), want.size());
    for (auto &e : want) { auto it = got.find(e.first); REQ(it != got.end(), "entry (%d,%d) is missing", e.first.first + 1, e.first.second + 1); REQ(it->second == e.second, "entry (%d,%d) is %s, the file says %s", e.first.first + 1, e.first.second + 1, it->second.str().c_str(), e.second.str().c_str()); }
}
static ref::Q exact(const std::string &s)   // the decimal text, exactly
{
    std::string d; int ex = 0; bool pt = false; size_t i = 0; for (; i < s.size(); i++) { if (s[i] == '.') pt = true; else if (s[i] == 'e' || s[i] == 'E') { ex += atoi(s.c_str() + i + 1); break; } else { d += s[i]; if (pt) ex--; } }
    ref::Z n(d.c_str()), t = ref::Z::pow(10, abs(ex)); ref::Q q = ex > 0 ? ref::Q(n * t, ref::Z(1)) : ref::Q(n, t); return q;
}
// ---------------------------------------------------------------- D01
static TFile decode(mc::Dec &D, int maxd, int maxnz, bool dbl)
{
    TFile t; t.m = 1 + (int) D(maxd); t.n = 1 + (int) D(maxd); int nz = 1 + (int) D(maxnz); int cells = maxd * maxd; std::vector<char> used(cells, 0);
    for (int k = 0; k < nz; k++) { int c = (int) D(cells), v = (int) D(dbl ? NFV : NIV); t.pos.push_back({c % maxd, c / maxd}); t.val.push_back(dbl ? FV[v] : IV[v]); } return t;
}
static bool proper(const TFile &t) { for (size_t k = 0; k < t.pos.size(); k++) { if (t.pos[k].first >= t.m || t.pos[k].second >= t.n) return false; for (size_t l = 0; l < k; l++) if (t.pos[l] == t.pos[k]) return false; } return true; }
static void leakless(uint64_t lv, const char *what) { REQ(xa::live == lv, "%s leaked or released memory: %llu blocks before, %llu after", what, (unsigned long long) lv, (unsigned long long) xa::live); }
static void read_trip(const std::string &s, bool dbl, bool ok, int m, int n, const std::vector<std::pair<int, int>> &pos, const std::vector<ref::Q> &val)
{
    SLIP_options o = defopt(); SLIP_matrix *A = nullptr; uint64_t lv = xa::live; FILE *f = open_text(s); SLIP_info st = dbl ? SLIP_tripread_double(&A, f, &o) : SLIP_tripread(&A, f, &o); fclose(f); mc::step(mc::mix(st, A ? content(A) : 0));
    if (ok) { REQ(st == SLIP_OK, "a well-formed file is refused: %s", info_name(st)); holds(A, m, n, pos, val); }
    else { REQ(st != SLIP_OK, "a defective file is accepted"); REQ(!A, "an error, but also a matrix"); }
    mfree(A); leakless(lv, "the reader");
}
static void judge_trip(const std::string &s, bool dbl)      // decide from the text whether it is well formed
{
    auto w = tokens(s); bool ok = w.size() >= 3; TFile t; std::vector<ref::Q> val; if (ok) for (int k = 0; k < 3; k++) ok = ok && well(w[k], false) && w[k].size() < 10;
    long nz = 0; if (ok) { t.m = atoi(w[0].c_str()); t.n = atoi(w[1].c_str()); nz = atoi(w[2].c_str()); ok = t.m > 0 && t.n > 0 && nz > 0 && (long) w.size() >= 3 + 3 * nz; }
    for (long k = 0; ok && k < nz; k++) { auto &a = w[3 + 3 * k], &b = w[4 + 3 * k], &c = w[5 + 3 * k]; ok = well(a, false) && well(b, false) && well(c, dbl); if (!ok) break; t.pos.push_back({atoi(a.c_str()) - 1, atoi(b.c_str()) - 1}); val.push_back(exact(c)); ok = t.pos.back().first >= 0 && t.pos.back().second >= 0; }
    ok = ok && proper(t); mc::outcome(ok ? 1 : 2);
    if (ok && dbl) {        // the doubles nearest to the decimals, converted to integers by the library (S07, S08)
        SLIP_options o = defopt(); SLIP_matrix *T = nullptr, *C = nullptr; SLIP_info st = SLIP_matrix_allocate(&T, SLIP_TRIPLET, SLIP_FP64, t.m, t.n, nz, false, true, &o); REQ(st == SLIP_OK, "%s", info_name(st));
        for (long k = 0; k < nz; k++) { T->i[k] = t.pos[k].first; T->j[k] = t.pos[k].second; T->x.fp64[k] = strtod(w[5 + 3 * k].c_str(), nullptr); } T->nz = nz; st = SLIP_matrix_copy(&C, SLIP_CSC, SLIP_MPZ, T, &o); REQ(st == SLIP_OK, "%s", info_name(st));
        for (long k = 0; k < nz; k++) { ref::Q d(T->x.fp64[k]), e(0); for (int64_t p = C->p[t.pos[k].second]; p < C->p[t.pos[k].second + 1]; p++) if (C->i[p] == t.pos[k].first) e = ref::Q(ref::Z(C->x.mpz[p]), ref::Z(1)) / ref::Q(C->scale); REQ((e - d).abs() * ref::Q(ref::Z::pow(10, 17), ref::Z(1)) <= ref::Q(1), "the library converts %g to %s", T->x.fp64[k], e.str().c_str()); val[k] = e; }
        mfree(T); mfree(C);
    }
    read_trip(s, dbl, ok, t.m, t.n, t.pos, val);
}
struct DFile { int m, n; std::vector<std::string> v; };
static std::string text(const DFile &d, int style) { std::string o = mc::fmt("%d %d%s", d.m, d.n, style == 3 ? " " : "\n"); for (int i = 0; i < d.m; i++) for (int j = 0; j < d.n; j++) { bool last = i == d.m - 1 && j == d.n - 1; o += d.v[i * d.n + j]; if (!last || style == 0) o += style == 2 ? "\n\n" : style == 3 ? "  " : j + 1 < d.n ? " " : "\n"; } return o; }
static void judge_dense(const std::string &s)
{
    auto w = tokens(s); bool ok = w.size() >= 2 && well(w[0], false) && well(w[1], false) && w[0].size() < 10 && w[1].size() < 10; int m = 0, n = 0; if (ok) { m = atoi(w[0].c_str()); n = atoi(w[1].c_str()); ok = m > 0 && n > 0 && (long) w.size() >= 2 + (long) m * n; } for (long k = 0; ok && k < (long) m * n; k++) ok = well(w[2 + k], false);
    mc::outcome(ok ? 1 : 2); SLIP_options o = defopt(); SLIP_matrix *A = nullptr; uint64_t lv = xa::live; FILE *f = open_text(s); SLIP_info st = SLIP_read_dense(&A, f, &o); fclose(f); mc::step(mc::mix(st, A ? content(A) : 0));
    if (!ok) { REQ(st != SLIP_OK, "a defective file is accepted"); REQ(!A, "an error, but also a matrix"); }
    else { REQ(st == SLIP_OK && A, "a well-formed file is refused: %s", info_name(st)); std::string v = sound(A); REQ(v.empty(), "%s", v.c_str()); REQ(A->kind == SLIP_DENSE && A->type == SLIP_MPZ && A->m == m && A->n == n, "wrong kind, type or size"); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { ref::Q x(ref::Z(A->x.mpz[i + j * m]), ref::Z(1)); REQ(x == exact(w[2 + i * n + j]), "entry (%d,%d) is %s, the file says %s", i + 1, j + 1, x.str().c_str(), w[2 + i * n + j].c_str()); } REQ(mpq_cmp_ui(A->scale, 1, 1) == 0, "scale factor"); }
    mfree(A); leakless(lv, "the reader");
}
static void d01(bool th)
{
    mc::outcome_name(1, "well-formed file"); mc::outcome_name(2, "defective file"); mc::outcome_name(3, "allocation refused"); mc::outcome_name(4, "enough memory");
    for (int dbl = 0; dbl < 2; dbl++) {
        int NVAL = dbl ? NFV : NIV; const char *nm = dbl ? "SLIP_tripread_double" : "SLIP_tripread"; int maxnz = 2, maxd = 2; uint64_t per = (uint64_t) maxd * maxd * NVAL, tot = 4ull * maxnz * per * per * 4;
        auto file = [=](uint64_t i, int &style) { mc::Dec D(i); style = (int) D(4); return decode(D, maxd, maxnz, dbl); };
        mc::add(dbl ? "double-triplets-2x2" : "integer-triplets-2x2", tot, [=](uint64_t i) { int st; TFile t = file(i, st); session_open(); session_warm(); { Quiet q; judge_trip(text(t, st), dbl); } session_close(); mc::trace(); }, [=](uint64_t i) { int st; TFile t = file(i, st); return mc::fmt("%s of '%s'", nm, shown(text(t, st)).c_str()); });
        // every subset of a 3-by-3 (thorough: 3-by-4) matrix, entries in the order of the columns, of the rows, or backwards
        int N = th ? 4 : 3; uint64_t tot2 = (1ull << (3 * N)) * 3 * 4;
        auto file2 = [=](uint64_t i, int &style) { mc::Dec D(i); style = (int) D(4); int ord = (int) D(3); uint64_t mask = i / 12; TFile t; t.m = 3; t.n = N; for (int k = 0; k < 3 * N; k++) { int r = ord == 1 ? k / N : k % 3, c = ord == 1 ? k % N : k / 3; if (mask >> (c * 3 + r) & 1) { t.pos.push_back({r, c}); t.val.push_back(dbl ? FV[(c * 3 + r + mask) % NFV] : IV[(c * 3 + r + mask) % NIV]); } } if (ord == 2) { std::reverse(t.pos.begin(), t.pos.end()); std::reverse(t.val.begin(), t.val.end()); } return t; };
        mc::add(dbl ? "double-triplets-all-patterns" : "integer-triplets-all-patterns", tot2, [=](uint64_t i) { int st; TFile t = file2(i, st); if (t.pos.empty()) return; session_open(); session_warm(); { Quiet q; judge_trip(text(t, st), dbl); } session_close(); mc::trace(); }, [=](uint64_t i) { int st; TFile t = file2(i, st); return mc::fmt("%s of '%s'", nm, shown(text(t, st)).c_str()); });
        // every prefix of files, and every single-token replacement
        uint64_t nf = 64 * 4, cuts = 110;
        auto file3 = [=](uint64_t i, int &style) { mc::Dec D(i); style = (int) D(4); uint64_t k = D(64); TFile t; t.m = 1 + k % 3; t.n = 1 + k / 3 % 3; int nz = 1 + (int) (k % 4); for (int c = 0; c < t.m * t.n && nz; c++, nz--) { t.pos.push_back({c % t.m, c / t.m}); t.val.push_back(dbl ? FV[(c + k) % NFV] : IV[(c + k * 3) % NIV]); } return t; };
        mc::add(dbl ? "double-triplets-truncated" : "integer-triplets-truncated", nf * cuts, [=](uint64_t i) { int st; TFile t = file3(i / cuts, st); std::string s = text(t, st); if (i % cuts >= s.size()) return; s.resize(i % cuts); if (dbl && !s.empty()) { char c = s.back(), b = s.size() > 1 ? s[s.size() - 2] : 0; if (c == 'e' || c == 'E' || (c == '-' && (b == 'e' || b == 'E'))) return; } session_open(); session_warm(); { Quiet q; judge_trip(s, dbl); } session_close(); mc::trace(); }, [=](uint64_t i) { int st; TFile t = file3(i / cuts, st); std::string s = text(t, st); if (i % cuts < s.size()) s.resize(i % cuts); return mc::fmt("%s of '%s'", nm, shown(s).c_str()); });
        static const char *REP[] = {"0", "-1", "4", "x", "-", "3"};
        mc::add(dbl ? "double-triplets-damaged" : "integer-triplets-damaged", nf * 15 * 6, [=](uint64_t i) { mc::Dec D(i); int r = (int) D(6), tk = (int) D(15); int st; TFile t = file3(D(nf), st); auto w = tokens(text(t, st)); if (tk >= (int) w.size()) return; if (tk == 2 && r == 0) return; w[tk] = REP[r]; std::string s; for (size_t k = 0; k < w.size(); k++) s += w[k] + (k % 3 == 2 ? "\n" : " "); session_open(); session_warm(); { Quiet q; judge_trip(s, dbl); } session_close(); mc::trace(); },
            [=](uint64_t i) { mc::Dec D(i); int r = (int) D(6), tk = (int) D(15); int st; TFile t = file3(D(nf), st); auto w = tokens(text(t, st)); if (tk < (int) w.size()) w[tk] = REP[r]; std::string s; for (size_t k = 0; k < w.size(); k++) s += w[k] + (k % 3 == 2 ? "\\n" : " "); return mc::fmt("%s of '%s'", nm, s.c_str()); });
    }
    int NVAL = NIV; uint64_t totd = 9 * 4 * NVAL * NVAL * 5;
    auto dfile = [=](uint64_t i, int &style) { mc::Dec D(i); style = (int) D(4); DFile d; d.m = 1 + (int) D(3); d.n = 1 + (int) D(3); int a = (int) D(NVAL), b = (int) D(NVAL), c = (int) D(5); for (int k = 0; k < d.m * d.n; k++) d.v.push_back(IV[k & 1 ? (b + k * c) % NVAL : (a + k) % NVAL]); return d; };
    mc::add("dense-files", totd, [=](uint64_t i) { int st; DFile d = dfile(i, st); session_open(); session_warm(); { Quiet q; judge_dense(text(d, st)); } session_close(); mc::trace(); }, [=](uint64_t i) { int st; DFile d = dfile(i, st); return mc::fmt("SLIP_read_dense of '%s'", shown(text(d, st)).c_str()); });
    uint64_t cuts = 60, nf = 9 * 4 * 6;
    mc::add("dense-files-truncated", nf * cuts, [=](uint64_t i) { int st; DFile d = dfile(i / cuts, st); std::string s = text(d, st); if (i % cuts >= s.size()) return; s.resize(i % cuts); session_open(); session_warm(); { Quiet q; judge_dense(s); } session_close(); mc::trace(); }, [=](uint64_t i) { int st; DFile d = dfile(i / cuts, st); std::string s = text(d, st); if (i % cuts < s.size()) s.resize(i % cuts); return mc::fmt("SLIP_read_dense of '%s'", shown(s).c_str()); });
    static const char *REPD[] = {"x", "-", "-1", "0", "7", "1x"};
    auto damaged = [=](uint64_t i) { mc::Dec D(i); int r = (int) D(6), tk = (int) D(11); int st; DFile d = dfile(D(nf), st); auto w = tokens(text(d, st)); std::string t; if (tk >= (int) w.size()) return t; w[tk] = REPD[r]; if (tk < 2 && (r == 3 || (r == 5))) return t; if (r == 5 && tk + 1 < (int) w.size()) return t; for (size_t k = 0; k < w.size(); k++) t += w[k] + (k == 1 ? "\n" : " "); return t; };
    mc::add("dense-files-damaged", nf * 6 * 11, [=](uint64_t i) { std::string t = damaged(i); if (t.empty() || i % 6 == 5) return; session_open(); session_warm(); { Quiet q; judge_dense(t); } session_close(); mc::trace(); }, [=](uint64_t i) { return mc::fmt("SLIP_read_dense of '%s'", shown(damaged(i)).c_str()); });
    mc::add("missing-arguments", 3 * 3, [=](uint64_t i) {
        int which = (int) (i % 3), miss = (int) (i / 3); if (which == 2 && miss != 1) return; session_open(); session_warm(); { Quiet q; SLIP_options o = defopt(); SLIP_matrix *A = nullptr; std::string t = which == 2 ? "1 1\n3\n" : "1 1 1\n1 1 3\n"; FILE *f = open_text(t); SLIP_matrix **h = miss == 0 || miss == 2 ? nullptr : &A; FILE *g = miss == 0 ? f : nullptr; SLIP_info st = which == 0 ? SLIP_tripread(h, g, &o) : which == 1 ? SLIP_tripread_double(h, g, &o) : SLIP_read_dense(&A, g, &o); fclose(f); mc::step(st); REQ(st == SLIP_INCORRECT_INPUT, "%s", info_name(st)); REQ(!A, "a matrix appeared"); } session_close(); mc::trace(); mc::outcome(2);
    }, [](uint64_t i) { return mc::fmt("%s without %s", i % 3 == 0 ? "SLIP_tripread" : i % 3 == 1 ? "SLIP_tripread_double" : "SLIP_read_dense", i / 3 == 0 ? "a handle" : i / 3 == 1 ? "a file" : "both"); });
    // long files: entries in several orders, one defect at a time
    static const int LD[] = {5, 8, 17, 40, 100};
    auto longf = [](uint64_t i, int &which) {
        mc::Dec D(i); which = (int) D(3); int n = LD[D(5)], order = (int) D(4), fill = (int) D(3), style = (int) D(4), bad = (int) D(6), at = (int) D(5); int m = n + (order == 1 ? 3 : order == 3 ? -2 : 0);
        if (which == 2) { int c = 1 + fill * 3; DFile d; d.m = n; d.n = c; for (int k = 0; k < n * c; k++) d.v.push_back(IV[(k * 7 + k / 5 + order) % NIV]); size_t e = (size_t) at * (d.v.size() - 1) / 4; if (bad == 1) d.v[e] = "x"; if (bad == 2) d.m++; if (bad == 3) d.v[e] = "-"; if (bad == 4) d.v.pop_back(), d.v.push_back(""); std::string s = mc::fmt("%d %d\n", d.m, d.n); for (size_t k = 0; k < d.v.size(); k++) s += d.v[k] + ((k + 1) % c ? style & 1 ? "  " : " " : style & 2 ? "\n\n" : "\n"); if (bad == 5) { s = s.substr(0, s.size() - s.size() * (size_t) (at + 1) / 8); while (!s.empty() && !isspace((unsigned char) s.back())) s.pop_back(); } return s; }
        TFile t; t.m = m; t.n = n; std::vector<std::pair<int, int>> p; for (int j = 0; j < n; j++) for (int r = 0; r < m; r++) if (fill == 0 ? r == j || r == m - 1 || j == 0 : fill == 1 ? (r * 5 + j * 3) % 7 == 0 || r == j : n > 17 ? (r + j) % 4 == 0 : true) p.push_back({r, j});
        if (order == 1) std::reverse(p.begin(), p.end()); if (order == 2) std::stable_sort(p.begin(), p.end()); if (order == 3) { size_t k = 0; std::vector<std::pair<int, int>> q(p.size()); size_t L = p.size(), g = 7; while (L % g == 0) g += 2; auto gcd = [](size_t a, size_t b) { while (b) { size_t r = a % b; a = b; b = r; } return a; }; while (gcd(L, g) != 1) g += 2; for (auto &e : p) q[k++ * g % L] = e; p = q; }
        t.pos = p; for (size_t k = 0; k < p.size(); k++) t.val.push_back(which ? FV[(k * 5 + k / 9) % NFV] : IV[(k * 5 + k / 7) % NIV]); size_t e = (size_t) at * (p.size() - 1) / 4;
        if (bad == 1) t.pos[e] = t.pos[(e + p.size() / 2) % p.size()]; if (bad == 2) t.pos[e].first = m; if (bad == 3) t.pos[e].second = -1; if (bad == 4) t.val[e] = "?"; std::string s = text(t, style); if (bad == 5) { size_t b = s.find_first_of("\n "); (void) b; s = s.substr(0, s.size() - s.size() * (size_t) (at + 1) / 8); while (!s.empty() && !isspace((unsigned char) s.back())) s.pop_back(); } return s; };
    mc::add("long-files", 3 * 5 * 4 * 3 * 4 * 6 * 5, [=](uint64_t i) { int w; std::string s = longf(i, w); session_open(); session_warm(); { Quiet q; if (w == 2) judge_dense(s); else judge_trip(s, w); } session_close(); mc::trace(); },
            [=](uint64_t i) { int w; std::string s = longf(i, w); return mc::fmt("%s of '%s%s'", w == 0 ? "SLIP_tripread" : w == 1 ? "SLIP_tripread_double" : "SLIP_read_dense", shown(s.substr(0, 300)).c_str(), s.size() > 300 ? " ..." : ""); });
    // dimensions and counts beyond 16 bits
    mc::add("beyond-16-bits", 3 * 4, [=](uint64_t i) {
        mc::Dec D(i); int w = (int) D(3), o = (int) D(4); const int n = 70001; std::string s; session_open(); session_warm();
        if (w == 2) { s = mc::fmt("%d %d\n", o & 1 ? 1 : n, o & 1 ? n : 1); for (int k = 0; k < n; k++) s += mc::fmt("%d%s", k % 100 - 50, o & 2 ? " " : "\n"); }
        else { s = mc::fmt("%d %d %d\n", o & 2 ? n + 5 : n, o & 2 ? n : n + 7, n); for (int k = 0; k < n; k++) { int e = o & 1 ? n - 1 - k : k; s += mc::fmt("%d %d %s\n", e + 1, (int) (e * 25013L % n) + 1, w ? e % 2 ? "0.5" : "-2.25" : e % 3 ? "7" : "-123456789012"); } }
        { Quiet q; SLIP_options op = defopt(); SLIP_matrix *A = nullptr; uint64_t lv = xa::live; FILE *f = open_text(s); SLIP_info st = w == 2 ? SLIP_read_dense(&A, f, &op) : w ? SLIP_tripread_double(&A, f, &op) : SLIP_tripread(&A, f, &op); fclose(f); mc::step(mc::mix(st, A ? content(A) : 0)); REQ(st == SLIP_OK && A, "a well-formed file is refused: %s", info_name(st)); std::string v = sound(A); REQ(v.empty(), "%s", v.c_str()); REQ(A->type == SLIP_MPZ, "not an integer matrix");
          if (w == 2) { REQ(A->kind == SLIP_DENSE && A->m == (o & 1 ? 1 : n) && A->n == (o & 1 ? n : 1), "wrong kind or size"); for (int k = 0; k < n; k++) REQ(mpz_cmp_si(A->x.mpz[k], k % 100 - 50) == 0, "entry %d is wrong", k + 1); }
          else { REQ(A->kind == SLIP_CSC && A->m == (o & 2 ? n + 5 : n) && A->n == (o & 2 ? n : n + 7) && A->p[A->n] == n, "wrong kind, size or number of entries"); std::vector<int> row((size_t) A->n, -1); for (int e = 0; e < n; e++) row[e * 25013L % n] = e; ref::Q sc(A->scale); for (int64_t j = 0; j < A->n; j++) for (int64_t p = A->p[j]; p < A->p[j + 1]; p++) { int e = row[j]; REQ(A->i[p] == e, "there is an entry (%lld,%lld)", (long long) A->i[p] + 1, (long long) j + 1); ref::Q x = ref::Q(ref::Z(A->x.mpz[p]), ref::Z(1)) / sc, want = w ? e % 2 ? ref::Q(1, 2) : ref::Q(-9, 4) : ref::Q(e % 3 ? 7L : -123456789012L); REQ(x == want, "entry (%d,%lld) is %s", e + 1, (long long) j + 1, x.str().c_str()); } }
          mfree(A); leakless(lv, "the reader"); } session_close(); mc::outcome(1); mc::trace();
    }, [](uint64_t i) { mc::Dec D(i); int w = (int) D(3), o = (int) D(4); return mc::fmt("%s of a file with 70001 entries, variant %d", w == 0 ? "SLIP_tripread" : w == 1 ? "SLIP_tripread_double" : "SLIP_read_dense", o); });
    // every allocation refused, alone or with all later ones
    mc::add("refused-allocations", 3 * 2 * (th ? 64 : 16) * 120, [=](uint64_t i) {
        mc::Dec D(i); int which = (int) D(3); bool from = D(2); uint64_t k = 1 + D(120); int z = (int) D(th ? 64 : 16); std::string s; if (which < 2) { TFile t; t.m = 1 + z % 3; t.n = 1 + z / 3 % 3; for (int c = 0; c < t.m * t.n && c < 4; c++) { t.pos.push_back({c % t.m, c / t.m}); t.val.push_back(which ? FV[(c + z) % NFV] : IV[(c + z) % NIV]); } s = text(t, 0); } else { DFile d; d.m = 1 + z % 3; d.n = 1 + z / 3 % 3; for (int c = 0; c < d.m * d.n; c++) d.v.push_back(IV[(c + z) % NIV]); s = text(d, 0); }
        session_open(); session_warm(); { Quiet q; SLIP_options o = defopt(); SLIP_matrix *A = nullptr; uint64_t lv = xa::live; FILE *f = open_text(s); if (from) xa::arm_from(k); else xa::arm(k); SLIP_info st = which == 0 ? SLIP_tripread(&A, f, &o) : which == 1 ? SLIP_tripread_double(&A, f, &o) : SLIP_read_dense(&A, f, &o); bool hit = xa::failed > 0; xa::disarm(); fclose(f); mc::step(mc::mix(st, k)); mc::outcome(hit ? 3 : 4);
            if (!hit) REQ(st == SLIP_OK, "no request was refused, but %s", info_name(st)); if (st == SLIP_OK) { REQ(A, "no matrix, but success"); std::string v = sound(A); REQ(v.empty(), "%s", v.c_str()); } else REQ(!A, "an error, but also a matrix"); mfree(A); REQ(xa::live <= lv, "the reader leaked %llu block(s)", (unsigned long long) (xa::live - lv)); }
        session_close(); mc::trace();
    }, [=](uint64_t i) { mc::Dec D(i); int which = (int) D(3); bool from = D(2); uint64_t k = 1 + D(120); int z = (int) D(th ? 64 : 16); return mc::fmt("%s of file %d, request %llu%s refused", which == 0 ? "SLIP_tripread" : which == 1 ? "SLIP_tripread_double" : "SLIP_read_dense", z, (unsigned long long) k, from ? " and all later" : ""); });
    mc::assume("a file with text after its last entry, and one that announces no entries, are not claimed; a number cut short by the end of the file is the shorter number (nothing is claimed for one that is cut inside its exponent)");
}
// ---------------------------------------------------------------- D02
static const char *AW[] = {"help", "p", "piv", "q", "col", "t", "tol", "o", "out", "f", "file", "c", "0", "1", "2", "3", "5", "6", "-1", "0.25", "a.txt", "P", "--help"}; static const int NAW = 23;
struct Cmd { bool ok = true, help = false, claimed = true; int piv = SLIP_SMALLEST, ord = SLIP_COLAMD, out = 0; double tol = 1; bool check = false; std::string mat, rhs; };
static Cmd model(const std::vector<std::string> &a, const SLIP_options &o0)
{
    Cmd c; c.piv = o0.pivot; c.ord = o0.order; c.out = o0.print_level; c.tol = o0.tol; c.check = o0.check; auto num = [](const std::string &s, double &v) { char *e; v = strtod(s.c_str(), &e); return !*e && !s.empty(); }; double v;
    for (size_t i = 0; i < a.size(); i++) {
        const std::string &w = a[i]; auto next = [&](std::string &s) { if (++i >= a.size()) return c.ok = false; s = a[i]; return true; }; std::string s;
        if (w == "help") c.help = true; else if (w == "c") c.check = true;
        else if (w == "p" || w == "piv") { if (!next(s)) return c; if (!num(s, v) || v != (int) v || v < 0 || v > 5) { c.claimed = false; return c; } c.piv = (int) v; }
        else if (w == "q" || w == "col") { if (!next(s)) return c; if (!num(s, v) || v != (int) v || v < 0 || v > 2) { c.claimed = false; return c; } c.ord = (int) v; }
        else if (w == "t" || w == "tol") { if (!next(s)) return c; if (!num(s, v) || v == 0) { c.claimed = false; return c; } if (v < 0) { c.ok = false; return c; } c.tol = v; }
        else if (w == "o" || w == "out") { if (!next(s)) return c; if (!num(s, v) || v != (int) v || v < 0 || v > 2) { c.claimed = false; return c; } c.out = (int) v; }
        else if (w == "f" || w == "file") { if (!next(s)) return c; c.mat = s; if (!next(s)) return c; c.rhs = s; }
        else { c.ok = false; return c; }
    }
    return c;
}
static void d02(bool th)
{
    int L = th ? 5 : 4; uint64_t tot = 0; for (int l = 0; l <= L; l++) tot += mc::ipow(NAW, l);
    auto dec = [=](uint64_t i) { int l = 0; while (i >= mc::ipow(NAW, l)) i -= mc::ipow(NAW, l++); std::vector<std::string> a; for (int k = 0; k < l; k++) { a.push_back(AW[i % NAW]); i /= NAW; } return a; };
    mc::outcome_name(0, "accepted"); mc::outcome_name(1, "refused"); mc::outcome_name(2, "undocumented value"); mc::outcome_name(3, "help");
    static Quiet *Q; if (!Q) Q = nullptr;
    mc::add("argument-lists", tot, [=](uint64_t i) {
        auto a = dec(i); std::vector<std::string> st = a; st.insert(st.begin(), "SLIPLU"); std::vector<char *> av; for (auto &s : st) av.push_back((char *) s.c_str()); av.push_back(nullptr);
        static FILE *sink = fopen("/dev/null", "w"); int keep = -1; (void) sink; fflush(stdout); keep = dup(1); dup2(fileno(sink), 1);
        SLIP_options o = defopt(), o0; o.pivot = SLIP_SMALLEST; o.check = i & 1; o0 = o; char dm[] = "default matrix", dr[] = "default rhs", *mn = dm, *rn = dr; SLIP_type rat = (SLIP_type) 77; bool help = true; SLIP_info r = SLIP_process_command_line((int) st.size(), av.data(), &o, &mn, &rn, &rat, &help); fflush(stdout); dup2(keep, 1); close(keep);
        Cmd c = model(a, o0); mc::step(mc::mix(mc::mix(r, o.pivot * 8 + o.order), mc::mix(o.print_level, (uint64_t) (o.tol * 8)))); mc::trace(); REQ(o.prec == o0.prec && o.round == o0.round, "an option that has no argument was changed"); if (r == SLIP_OK) REQ((int) o.pivot >= 0 && (int) o.pivot <= 5 && (int) o.order >= 0 && (int) o.order <= 2 && o.tol >= 0, "the options are illegal: pivot %d, order %d, tol %g", o.pivot, o.order, o.tol);
        if (!c.claimed) { mc::outcome(2); return; } if (!c.ok) { REQ(r != SLIP_OK, "accepted"); mc::outcome(1); return; }
        REQ(r == SLIP_OK, "refused: %s", info_name(r)); REQ(help == c.help, "help is %d", help); if (c.help) { mc::outcome(3); } else mc::outcome(0);
        REQ((int) o.pivot == c.piv, "pivot scheme %d", o.pivot); REQ((int) o.order == c.ord, "ordering %d", o.order); REQ(o.print_level == c.out, "print level %d", o.print_level); REQ(o.tol == c.tol, "tolerance %g", o.tol); REQ(o.check == c.check, "check is %d", o.check);
        if (c.mat.empty()) REQ(mn == dm && rn == dr, "the file names were changed"); else REQ(c.mat == mn && c.rhs == rn, "the files are '%s' and '%s'", mn, rn);
    }, [=](uint64_t i) { std::string s = "SLIPLU"; for (auto &w : dec(i)) s += " " + w; return s; });
    static const double TL[] = {1, 0.5, 0.1, 1e-3};
    mc::add("options-shown", 6 * 3 * 4 * 3, [=](uint64_t i) {
        mc::Dec D(i); int p = (int) D(6), q = (int) D(3), t = (int) D(4), l = (int) D(3); SLIP_options o = defopt(); o.pivot = (SLIP_pivot) p; o.order = (SLIP_col_order) q; o.tol = TL[t]; o.print_level = l; std::string s; { Quiet Z; SLIP_print_options(&o); s = Z.text(); } mc::step(mc::hbytes(0, s.data(), s.size()));
        static const char *PN[] = {"smallest", "diagonal", "first nonzero", "diagonal small tolerance", "diagonal large tolerance", "largest"}, *QN[] = {"No", "the COLAMD", "the AMD"};
        std::string w = mc::fmt("Using %s ordering and selecting the %s pivot", QN[q], PN[p]); REQ(s.find(w) != std::string::npos, "the program shows '%s', the options are '%s'", shown(s).c_str(), w.c_str()); std::string tt = mc::fmt("%lf", TL[t]); bool has = s.find("olerance used") != std::string::npos; REQ(has == (p == SLIP_TOL_SMALLEST || p == SLIP_TOL_LARGEST), "tolerance %sshown", has ? "" : "not "); if (has) REQ(s.find(tt) != std::string::npos, "the tolerance shown is not %s", tt.c_str()); mc::trace();
    }, [=](uint64_t i) { mc::Dec D(i); int p = (int) D(6), q = (int) D(3), t = (int) D(4); return mc::fmt("SLIP_print_options of pivot %d, order %d, tol %g", p, q, TL[t]); });
    mc::assume("what an undocumented value of a documented option does (p 6, q x, t 0, ...) is not claimed beyond the options staying legal");
}
// ---------------------------------------------------------------- D03
static bool is_singular(const ref::Mat &A) { ref::Mat X; return ref::det_solve(A, A, X) == ref::Z(0); }
static bool HIT;
static long factor_size(const ref::Mat &A, int p, int q)    // entries of L and U, the diagonal counted once, as the library makes them
{
    session_open(); session_warm(); SLIP_options o = defopt(); o.pivot = (SLIP_pivot) p; o.order = (SLIP_col_order) q; SLIP_matrix *T = nullptr, *C = nullptr, *L = nullptr, *U = nullptr, *r = nullptr; SLIP_LU_analysis *S = nullptr; int64_t *pinv = nullptr; int n = (int) A.size(); long c = -1;
    if (SLIP_matrix_allocate(&T, SLIP_TRIPLET, SLIP_INT64, n, n, n * n, false, true, &o) == SLIP_OK) { for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) if (!(A[i][j] == ref::Z(0))) { T->i[T->nz] = i; T->j[T->nz] = j; T->x.int64[T->nz++] = mpz_get_si(A[i][j].v); }
        if (SLIP_matrix_copy(&C, SLIP_CSC, SLIP_MPZ, T, &o) == SLIP_OK && SLIP_LU_analyze(&S, C, &o) == SLIP_OK && SLIP_LU_factorize(&L, &U, &r, &pinv, C, S, &o) == SLIP_OK) c = (long) (L->p[n] + U->p[n] - n); }
    mfree(T); mfree(C); mfree(L); mfree(U); mfree(r); SLIP_LU_analysis_free(&S, &o); xa::xfree(pinv); session_close(); return c;
}
static int open_files() { int c = 0; for (int f = 0; f < 64; f++) c += fcntl(f, F_GETFD) != -1; return c; }
static void d03(bool th)
{
    mc::outcome_name(0, "solved"); mc::outcome_name(1, "singular"); mc::outcome_name(2, "defective files"); mc::outcome_name(3, "allocation refused"); mc::outcome_name(4, "help");
    static const int MV[] = {0, 1, -1, 2}; int n2 = 81 * (th ? 3 : 1); (void) n2;
    auto put = [](const char *name, const std::string &s) { const char *d = getenv("MC_TMP"); std::string p = mc::fmt("%s/%s.%d", d ? d : "/tmp", name, (int) getpid()); FILE *f = fopen(p.c_str(), "w"); REQ(f, "cannot write %s", p.c_str()); fwrite(s.data(), 1, s.size(), f); fclose(f); return p; };
    auto run = [=](const std::string &mat, const std::string &rhs, std::vector<std::string> args, std::string &out, uint64_t refuse) {
        std::string a = put("mat", mat), b = put("rhs", rhs); args.insert(args.begin(), "SLIPLU"); args.push_back("f"); args.push_back(a); args.push_back(b); std::vector<char *> av; for (auto &s : args) av.push_back((char *) s.c_str()); av.push_back(nullptr);
        Quiet q; if (refuse) xa::arm_from(refuse); int r = sliplu_main((int) args.size(), av.data()); HIT = xa::failed > 0; xa::disarm(); out = q.text(); unlink(a.c_str()); unlink(b.c_str()); std::string key = out.substr(0, out.find("Symbolic analysis")); mc::step(mc::mix(mc::hbytes(HIT, key.data(), key.size()), mc::hbytes(mc::hbytes(r, mat.data(), mat.size()), rhs.data(), rhs.size()))); return r; };
    auto mat = [=](uint64_t m) { ref::Mat A = ref::zeros(2, 2); for (int k = 0; k < 4; k++) { A[k % 2][k / 2] = ref::Z(MV[m % 4]); m /= 4; } return A; };
    auto mtext = [=](const ref::Mat &A) { std::string s; int nz = 0; for (int j = 0; j < 2; j++) for (int i = 0; i < 2; i++) if (!(A[i][j] == ref::Z(0))) { nz++; s += mc::fmt("%d %d %s\n", i + 1, j + 1, A[i][j].str().c_str()); } return mc::fmt("2 2 %d\n", nz) + s; };
    static const char *RH[] = {"2 1\n1\n0\n", "2 1\n-7\n3", "2 2\n1 0\n0 1\n"};
    mc::add("whole-program", 256 * 3 * 6 * 3, [=](uint64_t i) {
        mc::Dec D(i); uint64_t m = D(256); int r = (int) D(3), p = (int) D(6), q = (int) D(3); ref::Mat A = mat(m); if (m == 0) return; std::string out; int fds = open_files(); int rc = run(mtext(A), RH[r], {"p", mc::fmt("%d", p), "q", mc::fmt("%d", q)}, out, 0); (void) rc;
        REQ(xa::live == 0, "the program leaked %llu block(s)", (unsigned long long) xa::live); REQ(open_files() == fds, "the program left files open"); bool sing = is_singular(A), pass = out.find("all tests passed") != std::string::npos, err = out.find("Error") != std::string::npos || out.find("ERROR") != std::string::npos; mc::outcome(sing); REQ(pass != err, "the program says neither or both of success and error"); REQ(pass == !sing, "the matrix is %s but the program %s", sing ? "singular" : "nonsingular", pass ? "succeeds" : "reports an error");
        // the number of entries it reports lies between n and n^2
        if (pass) { size_t k = out.find("nonzeros:"); REQ(k != std::string::npos, "no count of the factors"); long c = strtol(out.c_str() + k + 9, nullptr, 10), w = factor_size(A, p, q); REQ(c == w, "%ld entries in the factors, the library makes %ld", c, w); } mc::trace();
    }, [=](uint64_t i) { mc::Dec D(i); uint64_t m = D(256); int r = (int) D(3), p = (int) D(6), q = (int) D(3); return mc::fmt("SLIPLU p %d q %d, matrix file '%s', right-hand side '%s'", p, q, shown(mtext(mat(m))).c_str(), shown(RH[r]).c_str()); });
    static const int LN[] = {3, 5, 17, 40, 100};
    auto lmat = [](int n, int t, int dep) { ref::Mat A = ref::zeros(n, n); for (int j = 0; j < n; j++) { long sum = 2 + j % 3; for (int i = 0; i < n; i++) if (i != j && (t == 0 ? abs(i - j) == 1 : t == 1 ? i == 0 || j == 0 : t == 2 ? i == (j + 1) % n : (i * 7 + j * 3) % (n > 17 ? 40 : 2) == 0)) { long v = (i * 5L + j * 3) % 9 - 4; A[i][j] = ref::Z(v); sum += labs(v); } A[j][j] = ref::Z(j % 4 ? sum : -sum); } if (dep == 1) for (int i = 0; i < n; i++) A[i][n - 2] = A[i][n / 2 - 1] + A[i][n - 1]; if (dep == 2) for (int i = 0; i < n; i++) A[i][n / 2] = A[i][0] + A[i][0]; return A; };   // 0: strictly dominant by columns; otherwise dependent columns
    mc::add("larger-systems", 5 * 4 * 3 * 3 * 18, [=](uint64_t i) {
        mc::Dec D(i); int n = LN[D(5)], t = (int) D(4), dep = (int) D(3), nb = 1 + (int) D(3), p = (int) D(6), q = (int) D(3); if (n == 3 && dep == 1) dep = 2; ref::Mat A = lmat(n, t, dep); std::string s, r = mc::fmt("%d %d\n", n, nb), out; int nz = 0;
        for (int j = n - 1; j >= 0; j--) for (int k = 0; k < n; k++) if (!(A[k][j] == ref::Z(0))) { nz++; s += mc::fmt("%d %d %s\n", k + 1, j + 1, A[k][j].str().c_str()); } s = mc::fmt("%d %d %d\n", n, n, nz) + s; for (int k = 0; k < n * nb; k++) r += mc::fmt("%d%s", (k * 7 + 3) % 11 - 5, (k + 1) % nb ? " " : "\n");
        int fds = open_files(); run(s, r, {"c", "p", mc::fmt("%d", p), "q", mc::fmt("%d", q)}, out, 0); bool pass = out.find("all tests passed") != std::string::npos, err = out.find("Error") != std::string::npos || out.find("ERROR") != std::string::npos; mc::outcome(dep ? 1 : 0); REQ(xa::live == 0, "the program leaked %llu block(s)", (unsigned long long) xa::live); REQ(open_files() == fds, "the program left files open"); REQ(pass != err, "the program says neither or both of success and error"); REQ(pass == !dep, "the matrix is %s but the program %s", dep ? "singular" : "nonsingular", pass ? "succeeds" : "reports an error");
        if (pass) { size_t k = out.find("nonzeros:"); REQ(k != std::string::npos, "no count of the factors"); long c = strtol(out.c_str() + k + 9, nullptr, 10), w = factor_size(A, p, q); REQ(c == w, "%ld entries in the factors, the library makes %ld", c, w); } mc::trace();
    }, [=](uint64_t i) { mc::Dec D(i); int n = LN[D(5)], t = (int) D(4), dep = (int) D(3), nb = 1 + (int) D(3), p = (int) D(6), q = (int) D(3); return mc::fmt("SLIPLU c p %d q %d, %d-by-%d matrix of structure %d%s, %d right-hand sides", p, q, n, n, t, dep ? ", dependent columns" : "", nb); });
    static const char *BM[] = {"", "2", "2 2 2\n1 1 1\n", "2 2 2\n1 1 1\n3 2 1\n", "2 2 2\n1 1 1\n1 1 2\n", "2 2 -1\n", "2 3 2\n1 1 1\n2 2 1\n", "3 2 2\n1 1 1\n2 2 1\n", "2 2 2\n1 1 1\n2 2 1\n", "2 2 1\n1 1 1\n", "2 2 2\n0 1 1\n2 2 1\n"}; static const char *BR[] = {"", "2 1\n1", "2 1\n1\n1\n", "3 1\n1\n1\n1\n", "1 1\n1\n", "-2 1\n1\n1\n"};
    mc::add("defective-files", 11 * 6 * 3, [=](uint64_t i) {
        mc::Dec D(i); int m = (int) D(11), r = (int) D(6), q = (int) D(3); std::string out; run(BM[m], BR[r], {"q", mc::fmt("%d", q)}, out, 0); bool good = m == 8 && r == 2, pass = out.find("all tests passed") != std::string::npos; REQ(xa::live == 0, "the program leaked %llu block(s)", (unsigned long long) xa::live); REQ(pass == good, "the program %s", pass ? "succeeds" : "fails"); mc::outcome(good ? 0 : 2); mc::trace();
    }, [=](uint64_t i) { mc::Dec D(i); int m = (int) D(11), r = (int) D(6), q = (int) D(3); return mc::fmt("SLIPLU q %d, matrix file '%s', right-hand side '%s'", q, shown(BM[m]).c_str(), shown(BR[r]).c_str()); });
    // missing files, help, and what is shown at higher print levels
    mc::add("missing-files-and-help", 9 * 4, [=](uint64_t i) {
        int k = (int) (i % 9), l = (int) (i / 9); std::string m = put("mat", "2 2 2\n1 1 1\n2 2 1\n"), r = put("rhs", "2 1\n1\n1\n"), no = m + ".none"; std::vector<std::string> a = {"SLIPLU"}; if (l) { a.push_back("o"); a.push_back(mc::fmt("%d", l - 1)); } bool help = k >= 4 && k < 8, good = k == 3; 
        if (k < 4) { a.push_back("f"); a.push_back(k & 1 ? m : no); a.push_back(k & 2 ? r : no); } else if (k == 4) a.push_back("help"); else if (k == 5) { a.push_back("c"); a.push_back("help"); } else if (k == 6) { a.push_back("help"); a.push_back("p"); a.push_back("1"); } else if (k == 7) { a.push_back("help"); a.push_back("f"); a.push_back(m); a.push_back(r); } else a.push_back("helpme");
        std::vector<char *> av; for (auto &s : a) av.push_back((char *) s.c_str()); av.push_back(nullptr); std::string out; { Quiet q; int e = dup(2); dup2(1, 2); sliplu_main((int) a.size(), av.data()); fflush(stderr); dup2(e, 2); close(e); out = q.text(); } unlink(m.c_str()); unlink(r.c_str()); mc::step(mc::mix(k * 4 + l, out.size() > 0)); bool pass = out.find("all tests passed") != std::string::npos; REQ(xa::live == 0, "the program leaked %llu block(s)", (unsigned long long) xa::live); REQ(pass == good, "the program %s", pass ? "succeeds" : "fails"); REQ(!out.empty(), "the program says nothing"); REQ((out.find("COMMAND PARAMETERS") != std::string::npos) == (good && l >= 2), "the options are %sshown at print level %d", good && l >= 2 ? "not " : "", l - 1); if (help) mc::outcome(4); else mc::outcome(good ? 0 : 2); mc::trace();
    }, [](uint64_t i) { return mc::fmt("SLIPLU with %s, print level %d", i % 9 < 4 ? mc::fmt("matrix file %s, right-hand side file %s", i % 9 & 1 ? "there" : "missing", i % 9 & 2 ? "there" : "missing").c_str() : i % 9 < 8 ? "help asked for" : "an unknown argument", (int) (i / 9) - 1); });
    mc::add("memory-runs-out", 3 * 200, [=](uint64_t i) {
        mc::Dec D(i); int q = (int) D(3); uint64_t k = 1 + D(200); std::string out; run("2 2 4\n1 1 3\n2 1 1\n1 2 -2\n2 2 5\n", RH[1], {"q", mc::fmt("%d", q)}, out, k); bool hit = HIT, pass = out.find("all tests passed") != std::string::npos; REQ(xa::live == 0, "the program leaked %llu block(s)", (unsigned long long) xa::live); if (!hit) REQ(pass, "no request was refused but the program fails"); mc::outcome(hit ? 3 : 0); mc::trace();
    }, [=](uint64_t i) { mc::Dec D(i); int q = (int) D(3); uint64_t k = 1 + D(200); return mc::fmt("SLIPLU q %d on a 2-by-2 system, all requests from the %lluth on are refused", q, (unsigned long long) k); });
    mc::assume("the main program is compiled with its session opened on the tracked allocator, so that leaks and failing requests are seen");
}
void mc::register_spaces(const std::string &prop, bool th) { if (prop == "D01") d01(th); else if (prop == "D02") d02(th); else d03(th); }
