// ref_fp.h: reference rounding, in exact integer arithmetic
#pragma once
#include <mpfr.h>
#include "ref.h"
namespace ref {
inline Q round_q(const Q &x, long prec, mpfr_rnd_t rnd)
{   // the reference rounding, in integers only
    if (x.sgn() == 0) return Q(0);
    ref::Mode m; mpz_t q, r, nn, dd; mpz_init(q); mpz_init(r); mpz_init(nn); mpz_init(dd);
    mpz_abs(nn, mpq_numref(x.v)); mpz_set(dd, mpq_denref(x.v));
    long e = (long) mpz_sizeinbase(nn, 2) - (long) mpz_sizeinbase(dd, 2) - prec;    // first guess
    long used = 0; bool fixed = false;
    while (!fixed) {
        mpz_t a, b; mpz_init(a); mpz_init(b);
        if (e >= 0) { mpz_set(a, nn); mpz_mul_2exp(b, dd, e); } else { mpz_mul_2exp(a, nn, -e); mpz_set(b, dd); }
        mpz_fdiv_qr(q, r, a, b);
        long bits = mpz_sgn(q) ? (long) mpz_sizeinbase(q, 2) : 0;
        if (bits > prec) e++; else if (bits < prec) e--; else fixed = true;
        if (fixed) {
            bool neg = mpq_sgn(x.v) < 0, up = false;
            if (mpz_sgn(r)) {
                mpz_mul_2exp(r, r, 1); int c = mpz_cmp(r, b);
                if (rnd == MPFR_RNDN) up = c > 0 || (c == 0 && mpz_odd_p(q));
                else if (rnd == MPFR_RNDU) up = !neg; else if (rnd == MPFR_RNDD) up = neg; else if (rnd == MPFR_RNDA) up = true;
            }
            if (up) mpz_add_ui(q, q, 1);
            if (neg) mpz_neg(q, q);
        }
        mpz_clear(a); mpz_clear(b);
        if (++used > 10) break;
    }
    Q res; if (e >= 0) mpz_mul_2exp(mpq_numref(res.v), q, e); else { mpz_set(mpq_numref(res.v), q); mpz_set_ui(mpq_denref(res.v), 1); mpz_mul_2exp(mpq_denref(res.v), mpq_denref(res.v), -e); mpq_canonicalize(res.v); }
    mpz_clear(q); mpz_clear(r); mpz_clear(nn); mpz_clear(dd); return res;
}
inline Q mpfr_value(const mpfr_t f)
{
    if (mpfr_zero_p(f)) return Q(0);
    ref::Mode m; Q r; mpfr_exp_t e = mpfr_get_z_2exp(mpq_numref(r.v), f);
    if (e >= 0) mpz_mul_2exp(mpq_numref(r.v), mpq_numref(r.v), e); else { mpz_set_ui(mpq_denref(r.v), 1); mpz_mul_2exp(mpq_denref(r.v), mpq_denref(r.v), -e); mpq_canonicalize(r.v); }
    return r;
}
// rounding to an integer
inline Z round_z(const Q &x, mpfr_rnd_t rnd)
{
    Mode m; Z q; mpz_t r; mpz_init(r); mpz_fdiv_qr(q.v, r, mpq_numref(x.v), mpq_denref(x.v));      // q = floor(x)
    if (mpz_sgn(r)) {
        mpz_mul_2exp(r, r, 1); int c = mpz_cmp(r, mpq_denref(x.v)); bool neg = mpq_sgn(x.v) < 0, up = false;
        if (rnd == MPFR_RNDN) up = c > 0 || (c == 0 && mpz_odd_p(q.v));
        else if (rnd == MPFR_RNDU) up = true; else if (rnd == MPFR_RNDZ) up = neg; else if (rnd == MPFR_RNDA) up = !neg;
        if (up) mpz_add_ui(q.v, q.v, 1);
    }
    mpz_clear(r); return q;
}
inline int64_t saturate(const Z &z)
{
    static const Z lo = -Z::pow(2, 63), hi = Z::pow(2, 63) - Z(1);
    if (z < lo) return INT64_MIN; if (hi < z) return INT64_MAX; return (int64_t) mpz_get_si(z.v);
}
}
