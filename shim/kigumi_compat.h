// Force-included (-include) before every kigumi header.
//
// kigumi is written for CGAL >= 6 (std::variant results) and Boost >= 1.84; the sandbox has CGAL 5.6
// (boost::variant results) and Boost 1.83.  This adds the one missing overload so that all of kigumi's
// templates can be instantiated unmodified.  It adds nothing to kigumi's own behaviour.
#pragma once
#include <boost/variant/get.hpp>
#include <boost/variant/variant.hpp>
#include <variant>
namespace std {
template <class T, class... Ts>
const T* get_if(const boost::variant<Ts...>* v) noexcept {
  return boost::get<T>(v);
}
template <class T, class... Ts>
T* get_if(boost::variant<Ts...>* v) noexcept {
  return boost::get<T>(v);
}
}  // namespace std
