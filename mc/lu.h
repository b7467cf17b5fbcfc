// lu.h: matrix families, configurations and reference checks for the LU pipeline
#pragma once
#include "slipx.h"
#include <algorithm>
#include <array>
#include <memory>

namespace lu {
using ref::Z; using ref::Q; using ref::Mat;

struct Cfg { int pivot, order; double tol; };
inline SLIP_options opt(const Cfg &c)
{
    SLIP_options o = defopt(); o.pivot = (SLIP_pivot) c.pivot; o.order = (SLIP_col_order) c.order; o.tol = c.tol; return o;
}
// level 0: every scheme x every ordering, tolerances; 1: every scheme in order, a few with orderings; 2: default + rotation
const std::vector<Cfg> &configs(int level);
std::vector<Cfg> configs_for(int level, uint64_t idx);

struct Fam {
    std::string name; uint64_t n; int level;        // level of configurations
    std::function<Spec(uint64_t)> get;
};
std::vector<Fam> families(bool thorough);
Mat rhs(int n);                 // the standard right-hand sides for dimension n
Spec with_values(const Spec &s, int seed);
Z generic(int i, int j, int n, int seed = 0);

struct Fac {
    SLIP_LU_analysis *S = nullptr; SLIP_matrix *L = nullptr, *U = nullptr, *rhos = nullptr; int64_t *pinv = nullptr;
    void clear()
    {
        mfree(L); mfree(U); mfree(rhos); if (pinv) { SLIP_free(pinv); pinv = nullptr; }
        if (S) { SLIP_info r = SLIP_LU_analysis_free(&S, nullptr); REQ(r == SLIP_OK && !S, "freeing the analysis returned %s", info_name(r)); }
    }
    void clear_factors() { SLIP_LU_analysis *t = S; S = nullptr; clear(); S = t; }
    uint64_t hash(int64_t n) const
    {
        uint64_t h = content(L); h = mc::mix(h, content(U)); h = mc::mix(h, content(rhos)); return mc::hbytes(h, pinv, n * 8);
    }
};
SLIP_LU_analysis *make_S(const std::vector<int64_t> &q, int64_t lnz, int64_t unz);  // a user-made analysis

std::string check_factors(const Mat &A, int n, const int64_t *q, const Fac &f);          // S03
std::string check_pivots(const Mat &A, int n, const int64_t *q, const Fac &f, const SLIP_options *o);  // S04
std::string check_solution(const SLIP_matrix *x, const Mat &X, const Z &det, const Q &factor, int n, int nb);
std::string cfgstr(const Cfg &c);
}
