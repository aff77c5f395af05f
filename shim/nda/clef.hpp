#pragma once
#include <nda/nda.hpp>
// lazy expressions (clef) are outside the stand-in: the macros expand to nothing
#ifndef CLEF_MAKE_FNT_LAZY
#define CLEF_MAKE_FNT_LAZY(...)
#define CLEF_IMPLEMENT_LAZY_CALL(...)
#define CLEF_IMPLEMENT_LAZY_METHOD(...)
#endif
namespace nda::clef {
  template <typename... T> inline constexpr bool is_any_lazy = false;
  template <typename... T> inline constexpr bool is_clef_expression = false;
  template <typename T>
  concept Lazy = false;
  template <typename T> auto make_expr_call(T &&, ...) { return 0; }
} // namespace nda::clef
namespace nda::clef {
  template <typename T> auto make_expr_subscript(T &&, auto &&...) { return 0; }
  template <typename Expr, int... Is> struct make_fun_impl {};
} // namespace nda::clef
