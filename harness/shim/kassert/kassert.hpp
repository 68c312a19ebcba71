// Stand-in for external/kassert (an empty git submodule in this sandbox).
// Same macro interface: KASSERT(expr[, msg[, level]]), KASSERT_ENABLED(level).
// A failing assertion at a level <= KASSERT_ASSERTION_LEVEL prints and aborts, like the original.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <sstream>
#include <string>

namespace kassert {
namespace assert {
constexpr int kassert_placeholder = 0;
}
namespace internal {
struct Msg {
  std::ostringstream os;
  template <typename T> Msg &operator<<(const T &t) { 
    if constexpr (requires(std::ostream &o, const T &x) { o << x; }) os << t;
    return *this; }
};
[[noreturn]] inline void fail(const char *expr, const char *file, int line, const std::string &msg) {
  std::fflush(stdout);
  std::fprintf(stderr, "%s:%d: KASSERT FAILED: %s %s\n", file, line, expr, msg.c_str());
  std::fflush(stderr);
  std::abort();
}
}
}
#ifndef KASSERT_ASSERTION_LEVEL
#define KASSERT_ASSERTION_LEVEL 10
#endif
#define KASSERT_ENABLED(level) ((level) <= KASSERT_ASSERTION_LEVEL)
namespace kassert_levels_shim { constexpr int normal = 30; }
#define KASSERT_SHIM_3(expr, msg, level) \
  do { \
    if constexpr (KASSERT_ENABLED(level)) { \
      if (!(expr)) { ::kassert::internal::Msg kassert_msg_; kassert_msg_ << msg; \
        ::kassert::internal::fail(#expr, __FILE__, __LINE__, kassert_msg_.os.str()); } \
    } \
  } while (false)
#define KASSERT_SHIM_2(expr, msg) KASSERT_SHIM_3(expr, msg, ::kassert_levels_shim::normal)
#define KASSERT_SHIM_1(expr) KASSERT_SHIM_2(expr, "")
#define KASSERT_SHIM_GET(_1, _2, _3, NAME, ...) NAME
#define KASSERT(...) KASSERT_SHIM_GET(__VA_ARGS__, KASSERT_SHIM_3, KASSERT_SHIM_2, KASSERT_SHIM_1, )(__VA_ARGS__)
