// Harness API.  Symbolic build: intrinsics of the bsx engine.  Native build: values come from a replay file (rt/native.cpp).
#pragma once
#include <cstdint>
#include <cstddef>
#include <vector>
extern "C" {
int64_t bsx_range_(const char* name, int64_t lo, int64_t hi);
void bsx_assume_(bool);
void bsx_assert_(bool, const char* msg);
void bsx_fail(const char* msg);
void bsx_observe(uint64_t);
void bsx_reach(const char* label);
uint64_t bsx_concretize(uint64_t);
void bsx_known_(const char* id, bool);
void bsx_threads(int);
}
#define BSX_ENTRY(name) extern "C" void bsx_entry_##name()
#define REQUIRE(c) bsx_assert_((c), #c)
#define REQUIRE_MSG(c, m) bsx_assert_((c), m)
#define ASSUME(c) bsx_assume_(c)
// region of inputs in which a listed known finding (id) applies: violations there are reported as that finding
#define KNOWN(id, c) bsx_known_(id, c)
#define KNOWN_END() bsx_known_("", false)
namespace bsx {
inline int sym(const char* n, int lo, int hi) { return (int)bsx_range_(n, lo, hi); }
inline size_t symz(const char* n, size_t lo, size_t hi) { return (size_t)bsx_range_(n, (int64_t)lo, (int64_t)hi); }
// symbolic but immediately enumerated by the solver (one path per feasible value)
inline int pick(const char* n, int lo, int hi) { return (int)(int64_t)bsx_concretize((uint64_t)bsx_range_(n, lo, hi)); }
inline bool symb(const char* n) { return bsx_range_(n, 0, 1) != 0; }
template <class T> inline void obs(T x) { bsx_observe((uint64_t)x); }
}
