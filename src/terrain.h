// Large closed meshes: the solid under or over a terrain.
#pragma once
#include "gen.h"

// The solid below (or above) a piecewise linear terrain over a square grid.
struct Terrain {
  int n{};            // cells per side
  double step{1};     // their size
  double x0{}, y0{};  // position
  double base{};      // the flat side
  bool above{};       // the solid is above the terrain
  std::vector<double> h;
  double at(int i, int j) const { return h[std::size_t(j) * std::size_t(n + 1) + std::size_t(i)]; }
  // Height at (x, y), which must be in the grid.  Cells are split along the diagonal (0,0)-(1,1).
  double height(double x, double y) const {
    x = (x - x0) / step;
    y = (y - y0) / step;
    int i = std::clamp(int(std::floor(x)), 0, n - 1), j = std::clamp(int(std::floor(y)), 0, n - 1);
    double u = x - i, v = y - j;
    double a = at(i, j), b = at(i + 1, j), c = at(i, j + 1), d = at(i + 1, j + 1);
    return u >= v ? a + u * (b - a) + v * (d - b) : a + v * (c - a) + u * (d - c);
  }
  // Positive inside, negative outside; near zero only near the surface.
  double inside(const std::array<double, 3>& p) const {
    double w = n * step;
    double m = std::min({p[0] - x0, x0 + w - p[0], p[1] - y0, y0 + w - p[1]});
    double x = std::clamp(p[0], x0, x0 + w), y = std::clamp(p[1], y0, y0 + w), z = height(x, y);
    return std::min({m, above ? p[2] - z : z - p[2], above ? base - p[2] : p[2] - base});
  }
  // The face of mesh() around a point of the surface that is not near an edge; -1 if none.
  int face_at(const std::array<double, 3>& p, double tol) const {
    double x = (p[0] - x0) / step, y = (p[1] - y0) / step;
    int i = std::clamp(int(std::floor(x)), 0, n - 1), j = std::clamp(int(std::floor(y)), 0, n - 1);
    double u = x - i, v = y - j;
    if (std::fabs(p[2] - height(p[0], p[1])) < tol && std::min({x, y, n - x, n - y}) > 0) {
      return 4 * (j * n + i) + (u >= v ? 0 : 1) + 0;
    }
    if (std::fabs(p[2] - base) < tol) {
      return 4 * (j * n + i) + (u >= v ? 2 : 3);
    }
    return -1;
  }
  double volume() const {
    double v = 0;
    for (int j = 0; j < n; ++j) {
      for (int i = 0; i < n; ++i) {
        double a = at(i, j), b = at(i + 1, j), c = at(i, j + 1), d = at(i + 1, j + 1);
        v += (a + b + d) / 6 + (a + c + d) / 6;
      }
    }
    v = (v - base * n * n) * step * step;
    return above ? -v : v;
  }
  gen::M mesh() const {
    gen::M m;
    int w = n + 1;
    for (int s = 0; s < 2; ++s) {
      for (int j = 0; j <= n; ++j) {
        for (int i = 0; i <= n; ++i) {
          m.p.push_back(P3{x0 + i * step, y0 + j * step, s == 0 ? at(i, j) : base});
        }
      }
    }
    auto id = [&](int s, int i, int j) { return s * w * w + j * w + i; };
    for (int j = 0; j < n; ++j) {
      for (int i = 0; i < n; ++i) {
        for (int s = 0; s < 2; ++s) {
          int a = id(s, i, j), b = id(s, i + 1, j), c = id(s, i, j + 1), d = id(s, i + 1, j + 1);
          if (s == 0) {
            m.f.push_back({a, b, d});
            m.f.push_back({a, d, c});
          } else {
            m.f.push_back({a, d, b});
            m.f.push_back({a, c, d});
          }
        }
      }
    }
    auto wall = [&](int i0, int j0, int i1, int j1) {  // counterclockwise around the square
      int a = id(1, i0, j0), b = id(1, i1, j1), c = id(0, i1, j1), d = id(0, i0, j0);
      m.f.push_back({a, b, c});
      m.f.push_back({a, c, d});
    };
    for (int k = 0; k < n; ++k) {
      wall(k, 0, k + 1, 0);
      wall(n, k, n, k + 1);
      wall(n - k, n, n - k - 1, n);
      wall(0, n - k, 0, n - k - 1);
    }
    return above ? gen::inverted(m) : m;
  }
  // Only the terrain.
  gen::M sheet() const {
    auto m = above ? gen::inverted(mesh()) : mesh();
    gen::M r;
    r.p.assign(m.p.begin(), m.p.begin() + (n + 1) * (n + 1));
    for (int k = 0; k < n * n; ++k) {
      r.f.push_back(m.f[std::size_t(4 * k)]);
      r.f.push_back(m.f[std::size_t(4 * k + 1)]);
    }
    return above ? gen::inverted(r) : r;
  }
};

inline Terrain gen_terrain(pbt::Source& s, int n, double rough, double waves, bool above) {
  Terrain t;
  t.n = n;
  t.above = above;
  t.base = above ? 40 : -40;
  auto seed = s.below(1 << 30);
  for (int j = 0; j <= n; ++j) {
    for (int i = 0; i <= n; ++i) {
      std::uint64_t x = seed + std::uint64_t(j) * 100003 + std::uint64_t(i);
      double r = double(pbt::splitmix(x) % 4096) / 4096 - 0.5;
      double z = waves * std::sin(0.11 * i + double(seed % 7)) * std::cos(0.07 * j) + rough * r;
      t.h.push_back(std::round(z * 4096) / 4096);
    }
  }
  return t;
}
