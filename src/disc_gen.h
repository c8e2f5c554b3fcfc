// Discs that cut solids and each other partially, in general position.
#pragma once
#include "boolean_oracle.h"

namespace gen {

using oracle::Segment;
using oracle::Triangle;

// Border edges of a mesh (edges with one face).
inline std::vector<std::array<int, 2>> border(const M& m) {
  std::map<std::pair<int, int>, int> n;
  for (const auto& f : m.f) {
    for (int k = 0; k < 3; ++k) {
      ++n[std::minmax(f[k], f[(k + 1) % 3])];
    }
  }
  std::vector<std::array<int, 2>> r;
  for (const auto& [e, c] : n) {
    if (c == 1) {
      r.push_back({e.first, e.second});
    }
  }
  return r;
}

// Whether a border edge of x pierces a face of y.  Throws Discard unless every such contact is in general position.
inline bool pierces(const M& x, const M& y) {
  bool any = false;
  for (auto e : border(x)) {
    const auto &p = x.p[e[0]], &q = x.p[e[1]];
    for (const auto& f : y.f) {
      const auto &a = y.p[f[0]], &b = y.p[f[1]], &c = y.p[f[2]];
      if (!CGAL::do_intersect(Segment{p, q}, Triangle{a, b, c})) {
        continue;
      }
      auto Z = CGAL::COPLANAR;
      if (CGAL::orientation(a, b, c, p) == Z || CGAL::orientation(a, b, c, q) == Z || CGAL::orientation(p, q, a, b) == Z ||
          CGAL::orientation(p, q, b, c) == Z || CGAL::orientation(p, q, c, a) == Z) {
        throw pbt::Discard{};
      }
      any = true;
    }
  }
  return any;
}

// Any contact that is not in general position (a vertex of one on a face of the other, an edge on an edge).
inline bool degenerate_contact(const M& x, const M& y) {
  for (const auto& f : x.f) {
    for (const auto& g : y.f) {
      Triangle t{x.p[f[0]], x.p[f[1]], x.p[f[2]]}, u{y.p[g[0]], y.p[g[1]], y.p[g[2]]};
      if (!CGAL::do_intersect(t, u)) {
        continue;
      }
      for (int k = 0; k < 3; ++k) {
        if (t.has_on(y.p[g[k]]) || u.has_on(x.p[f[k]])) {
          return true;
        }
        for (int l = 0; l < 3; ++l) {
          if (CGAL::do_intersect(Segment{x.p[f[k]], x.p[f[(k + 1) % 3]]}, Segment{y.p[g[l]], y.p[g[(l + 1) % 3]]})) {
            return true;
          }
        }
      }
    }
  }
  return false;
}

inline double odd(pbt::Source& s, double range) {
  // Multiples of 1/1009 are never at the solids' dyadic coordinates.
  return double(s.around(int(range * 1009))) / 1009;
}

// A disc: a convex polygon in a random plane, or a small height field.
inline M disc(pbt::Source& s, double size) {
  M m;
  std::array<double, 3> o{odd(s, 1.5), odd(s, 1.5), odd(s, 1.5)}, u{}, v{};
  for (auto* w : {&u, &v}) {
    for (auto& x : *w) {
      x = odd(s, 1);
    }
  }
  auto at = [&](double x, double y, double h) {
    return P3{o[0] + size * (x * u[0] + y * v[0]) + h, o[1] + size * (x * u[1] + y * v[1]), o[2] + size * (x * u[2] + y * v[2])};
  };
  switch (s.weighted({3, 3, 3})) {
    case 0:
      m.p = {at(0, 0, 0), at(1, 0, 0), at(0, 1, 0)};
      m.f = {{0, 1, 2}};
      break;
    case 1: {
      static const std::array<std::array<double, 2>, 6> hex{{{1, 0}, {0.5, 1}, {-0.5, 1}, {-1, 0}, {-0.5, -1}, {0.5, -1}}};
      int c = add_point(m, at(0, 0, 0));
      for (const auto& h : hex) {
        add_point(m, at(h[0], h[1], 0));
      }
      for (int i = 0; i < 6; ++i) {
        m.f.push_back({c, 1 + i, 1 + (i + 1) % 6});
      }
      break;
    }
    default: {
      int n = int(s.range(1, 3)), k = int(s.range(1, 3));
      for (int i = 0; i <= n; ++i) {
        for (int j = 0; j <= k; ++j) {
          add_point(m, at(double(i) / n, double(j) / k, odd(s, 0.125)));
        }
      }
      auto id = [&](int i, int j) { return i * (k + 1) + j; };
      for (int i = 0; i < n; ++i) {
        for (int j = 0; j < k; ++j) {
          m.f.push_back({id(i, j), id(i + 1, j), id(i + 1, j + 1)});
          m.f.push_back({id(i, j), id(i + 1, j + 1), id(i, j + 1)});
        }
      }
      break;
    }
  }
  return m;
}

// A solid or (closed is false) a disc, and a disc.
inline std::pair<M, M> solid_and_disc(Source& s, bool& closed) {
  M a, b;
  closed = !s.chance(1, 3);
  if (closed) {
    a = s.flip() ? star_solid(s, false) : tetra_solid(s);
    if (s.chance(1, 3)) {
      a = inverted(a);
    }
  } else {
    a = disc(s, 2);
  }
  b = disc(s, s.one_of({1.0, 3.0, 8.0, 20.0}));
  if (s.chance(1, 3)) {
    a = relabelled(s, a, {false, true});
    b = relabelled(s, b, {false, true});
  }
  return {a, b};
}

}  // namespace gen
