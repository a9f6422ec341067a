// Shared by the harnesses: tier-dependent sizes and small helpers.
#pragma once
#include "vh.h"
#ifdef THOROUGH
#define TIER(q, t) (t)
#else
#define TIER(q, t) (q)
#endif
// true when the call ends normally, false when it throws an E; anything else escapes and is reported
template<typename E, typename F> static bool returns_or_throws(F f) { try { f(); return true; } catch (const E &) { return false; } }
template<typename E, typename F> static void expect_throw(F f, const char * label) {
  bool threw = false;
  try { f(); } catch (const E &) { threw = true; }
  vassert(threw, label);
}
// 0..small-1, or one size well beyond what the other sizes reach
static inline int some_size(const char * name, int small, int big) { const int k = vchoose(name, small + 1); return k == small ? big : k; }
