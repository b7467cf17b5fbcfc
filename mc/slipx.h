// slipx.h: driver helpers for SLIP_LU: tracked allocator with fault injection, matrices, snapshots.
#pragma once
#include <stdio.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <math.h>
#include <gmp.h>
#include <mpfr.h>
extern "C" {
#include "SLIP_LU.h"
#include "SuiteSparse_config.h"
}
#include "mc.h"
#include "ref.h"
#include <vector>
#include <string>

// ---------------------------------------------------------------- tracked allocator
namespace xa {
struct Ent { void *p; size_t n; uint64_t id; };
extern uint64_t requests;           // allocation requests so far
extern uint64_t live;               // live blocks
extern uint64_t fail1, fail2;       // request numbers that fail (0: none)
extern uint64_t fail_from;          // all requests from this one on fail (0: none)
extern uint64_t failed;             // how many requests were refused
extern unsigned char fill;          // fresh memory is filled with this
extern uint64_t n_malloc, n_calloc, n_realloc, n_free;
std::string live_str();
void *xmalloc(size_t n);
void *xcalloc(size_t n, size_t s);
void *xrealloc(void *p, size_t n);
void xfree(void *p);
size_t size_of(const void *p);      // (size_t)-1: not a live block
void arm(uint64_t k1, uint64_t k2 = 0);   // k-th request from now fails (and k2-th)
void arm_from(uint64_t k);
void disarm();
}

// ---------------------------------------------------------------- print capture
namespace xp {
extern uint64_t lines, chars, hash;
int xprintf(const char *f, ...);
void reset();
}

// ---------------------------------------------------------------- session
void session_open();        // opens with the tracked allocator; fails the execution if refused
void session_warm();        // lets the library make its session-long allocations
void session_close();       // closes, then requires that no block is live
void use_tracked();         // SuiteSparse_config pointers := tracked allocator

const char *info_name(int info);

// ---------------------------------------------------------------- matrices
struct Entry { int i, j; ref::Z v; };
struct Spec {               // a sparse integer matrix in a given presentation order
    int m = 0, n = 0; std::vector<Entry> e;   // entries in column-major order, any order inside a column
    ref::Mat dense() const { ref::Mat A = ref::zeros(m, n); for (auto &t : e) A[t.i][t.j] = A[t.i][t.j] + t.v; return A; }
    std::string str() const;
};
SLIP_matrix *make_csc(const Spec &s);
SLIP_matrix *make_dense(const ref::Mat &B, int m, int n);
void set_scale(SLIP_matrix *A, const ref::Q &q);
uint64_t snapshot(const SLIP_matrix *A);            // hash of everything reachable, headers included
uint64_t snapshot(const SLIP_LU_analysis *S, int64_t n);
uint64_t content(const SLIP_matrix *A);             // hash of the mathematical content and layout (no addresses)
uint64_t hash_mpz(uint64_t h, const mpz_t z);
uint64_t hash_mpq(uint64_t h, const mpq_t q);
uint64_t hash_mpfr(uint64_t h, const mpfr_t f);
std::string valid(const SLIP_matrix *A, bool owned = true);   // "" or what is wrong (independent of SLIP_matrix_check)
void mfree(SLIP_matrix *&A);
inline SLIP_options defopt()
{
    SLIP_options o; memset(&o, 0, sizeof o);
    o.pivot = SLIP_TOL_SMALLEST; o.order = SLIP_COLAMD; o.tol = 1; o.print_level = 0; o.prec = 128; o.round = MPFR_RNDN; o.check = false;
    return o;
}
std::string optstr(const SLIP_options *o);
