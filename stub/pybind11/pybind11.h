// Minimal stand-in for pybind11, so that src/wrapper.cpp can be compiled (and its AST dumped) without pybind11.
// The binding table itself is type-checked (every &Class::member must exist) but does nothing.
#pragma once
#include <stdexcept>
#include <string>
#include <utility>
namespace pybind11 {
struct module_ { template <class T> struct Doc { Doc &operator=(const T &) { return *this; } };
  Doc<const char *> doc() { return {}; } };
template <class... A> struct init_ {};
template <class... A> init_<A...> init() { return {}; }
template <class T> struct enum_ { enum_(module_ &, const char *) {}
  enum_ &value(const char *, T) { return *this; } };
template <class T> struct class_ { class_(module_ &, const char *) {}
  template <class... A> class_ &def(init_<A...>) { return *this; }
  template <class F> class_ &def(const char *, F) { return *this; }
  template <class F> class_ &def_readonly(const char *, F) { return *this; } };
template <class... A> struct overload_ {
  template <class R, class C> auto operator()(R (C::*p)(A...)) const { return p; } };
template <class... A> overload_<A...> overload_cast_() { return {}; }
template <class... A> constexpr overload_<A...> overload_cast{};
}
#define PYBIND11_MODULE(name, m) static void pybind11_init_##name(pybind11::module_ &m)
