// mc.h: a small stateless explorer for finite spaces of executions of real code.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <vector>

namespace mc {

struct Space {
    std::string name;                           // unique within a property
    uint64_t n;                                 // number of executions in the space
    std::function<void(uint64_t)> run;          // run execution i on the real code, check it
    std::function<std::string(uint64_t)> desc;  // write execution i out
    uint64_t chunk = 0;                         // executions per worker process (0: automatic)
};

// a harness defines this: add the spaces of the property for the tier
void register_spaces(const std::string &prop, bool thorough);

void add(const std::string &name, uint64_t n, std::function<void(uint64_t)> run,
         std::function<std::string(uint64_t)> desc, uint64_t chunk = 0);
void assume(const std::string &text);           // recorded in the evidence

[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void step(uint64_t observed);   // one API call on the implementation and what it returned
void trace();                   // one complete execution compared with the reference
void nstep(uint64_t calls);     // API calls whose outcome is summarised by a later step()
void outcome(unsigned kind);    // counts executions per kind of outcome (0..31), see outcome_name
void outcome_name(unsigned kind, const char *name);

// hashing of observables
inline uint64_t mix(uint64_t h, uint64_t v)
{
    h ^= v + 0x9e3779b97f4a7c15ULL + (h << 12) + (h >> 4);
    h *= 0xff51afd7ed558ccdULL; h ^= h >> 32;
    return h;
}
inline uint64_t hbytes(uint64_t h, const void *p, size_t n)
{
    const unsigned char *c = (const unsigned char *) p;
    while (n >= 8) { uint64_t v; memcpy(&v, c, 8); h = mix(h, v); c += 8; n -= 8; }
    uint64_t v = 0; memcpy(&v, c, n); return mix(h, v + 1000003 * n);
}

// mixed radix decoding of an index
struct Dec {
    uint64_t v;
    explicit Dec(uint64_t i) : v(i) {}
    uint64_t operator()(uint64_t radix) { uint64_t r = v % radix; v /= radix; return r; }
};
inline uint64_t ipow(uint64_t b, unsigned e) { uint64_t r = 1; while (e--) r *= b; return r; }
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));

}

#define REQ(cond, ...) do { if (!(cond)) mc::fail(__VA_ARGS__); } while (0)
