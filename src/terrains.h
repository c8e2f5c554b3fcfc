// Large operands with analytic membership: solids under and over terrains.
#pragma once
#include "boolean_common.h"
#include "terrain.h"

inline std::array<double, 3> dpoint(const P3& p) {
  return {CGAL::to_double(p.x()), CGAL::to_double(p.y()), CGAL::to_double(p.z())};
}


// The faces of the second terrain have data from here on.
constexpr int kSecond = 10000000;

inline void shuffle(gen::M& m, std::uint64_t seed) {
  for (std::size_t i = 0; i + 1 < m.f.size(); ++i) {
    auto j = i + pbt::splitmix(seed) % (m.f.size() - i);
    std::swap(m.f[i], m.f[j]);
    std::swap(m.d[i], m.d[j]);
  }
}

struct Terrains {
  Terrain a, b;
  gen::M ma, mb;
};

inline Terrains gen_terrains(pbt::Case& c, int max = 1000) {
  auto& s = c.src;
  int n = int(s.one_of<std::int64_t>({s.range(10, 40), s.range(40, 70), s.range(70, 100), c.tier == "thorough" || s.chance(1, 3) ? s.range(100, 190) : s.range(40, 110)}));
  n = std::min(n, max);
  double rough = s.one_of({0.0, 0.03, 0.2, 1.0}), waves = s.one_of({0.0, 1.5, 6.0});
  if (n > 100) {
    rough = std::min(rough, 0.03);
  }
  auto a = gen_terrain(s, n, rough, waves, false);
  // The other one sometimes has a few large faces, each of which then is cut by many of the small ones.
  bool coarse = s.chance(1, 3);
  int nb = coarse ? int(s.range(1, 4)) : s.flip() ? n : std::max(8, n - int(s.below(10)));
  auto b = gen_terrain(s, nb, s.one_of({0.0, rough}), s.one_of({waves, 2.0, 0.0}), s.flip());
  if (coarse) {
    b.step = std::max(1, n / nb);
  }
  b.x0 = double(s.around(n / 2)) + 0.328125;
  b.y0 = double(s.around(n / 2)) + 0.609375;
  double lift = s.one_of({0.0, 0.25, -1.0, 3.0, 9.0});
  for (auto& z : b.h) {
    z += lift + 1.0 / 16384;
  }
  b.base += 0.4375;
  auto ma = a.mesh(), mb = b.mesh();
  set_data(ma, 0);
  set_data(mb, kSecond);
  auto order = s.below(1 << 16);
  if (order != 0) {
    shuffle(ma, order);
    shuffle(mb, order + 1);
  }
  c.describe("terrains of " + std::to_string(a.n) + " and " + std::to_string(b.n) + " cells a side" + (coarse ? " (large)" : "") + ", roughness " + std::to_string(rough) + ", waves " +
             std::to_string(waves) + ", lift " + std::to_string(lift) + (b.above ? ", above" : ", below") + ", at " + std::to_string(b.x0) + " " +
             std::to_string(b.y0) + "\n");
  return {a, b, ma, mb};
}

// A face of a result: its centre, its unit normal, and whether it is so thin that its surroundings are not its own.
struct Sight {
  std::array<double, 3> centre{}, normal{};
  double volume{};  // of the tetrahedron with the origin
  bool thin{};
};

inline Sight sight(const std::array<std::array<double, 3>, 3>& q, double eps) {
  Sight r;
  std::array<double, 3> u{}, v{};
  auto& nn = r.normal;
  for (int k = 0; k < 3; ++k) {
    u[k] = q[1][k] - q[0][k];
    v[k] = q[2][k] - q[0][k];
    r.centre[k] = (q[0][k] + q[1][k] + q[2][k]) / 3;
  }
  for (int k = 0; k < 3; ++k) {
    nn[k] = u[(k + 1) % 3] * v[(k + 2) % 3] - u[(k + 2) % 3] * v[(k + 1) % 3];
  }
  r.volume = (q[0][0] * nn[0] + q[0][1] * nn[1] + q[0][2] * nn[2]) / 6;
  double l = std::sqrt(nn[0] * nn[0] + nn[1] * nn[1] + nn[2] * nn[2]);
  double longest = 0;
  for (int k = 0; k < 3; ++k) {
    double d = 0;
    for (int i = 0; i < 3; ++i) {
      d += (q[k][i] - q[(k + 1) % 3][i]) * (q[k][i] - q[(k + 1) % 3][i]);
    }
    longest = std::max(longest, std::sqrt(d));
  }
  r.thin = l < 30 * eps * longest;
  if (!r.thin) {
    for (auto& x : nn) {
      x /= l;
    }
  }
  return r;
}

struct Surface_stats {
  std::uint64_t checked{}, skipped{};
  double volume{}, size{};
};

// Checks that a region's boundary is closed and that each of its faces separates the inside of the set from its outside.  The set
// holds the points p with in_set[sum of 2^i over the terrains i that p is in].
enum class Edges { MANIFOLD, CLOSED, ON_WALLS };

inline Surface_stats check_surface(const Region& r, const std::vector<const Terrain*>& t, const std::vector<char>& in_set, const std::string& name,
                                   Edges edges) {
  constexpr double eps = 1e-5;
  Surface_stats st;
  auto bad = [&](const std::string& what) { pbt::fail("large", name + ": " + what); };
  const auto& m = r.boundary();
  std::vector<std::array<double, 3>> p;
  for (auto v : m.vertices()) {
    p.push_back(dpoint(m.point(v)));
  }
  std::vector<std::pair<std::size_t, std::size_t>> e, back;
  for (auto fi : m.faces()) {
    const auto& f = m.face(fi);
    std::array<std::array<double, 3>, 3> q;
    for (std::size_t k = 0; k < 3; ++k) {
      q[k] = p[f[k].idx()];
      auto x = f[k].idx(), y = f[(k + 1) % 3].idx();
      e.emplace_back(x, y);
      back.emplace_back(y, x);
    }
    auto look = sight(q, eps);
    const auto& ce = look.centre;
    st.volume += look.volume;
    st.size += std::fabs(look.volume);
    if (look.thin) {
      ++st.skipped;  // a sliver: its surroundings are too near
      continue;
    }
    std::array<double, 3> in{}, out{};
    for (int k = 0; k < 3; ++k) {
      in[k] = ce[k] - eps * look.normal[k];
      out[k] = ce[k] + eps * look.normal[k];
    }
    bool on = false, unclear = false;
    std::size_t ii = 0, io = 0;
    for (std::size_t k = 0; k < t.size(); ++k) {
      double d = std::fabs(t[k]->inside(ce)), di = t[k]->inside(in), d_o = t[k]->inside(out);
      on = on || d <= 1e-8;
      unclear = unclear || (d > 1e-8 && d < 10 * eps) || std::min(std::fabs(di), std::fabs(d_o)) < eps / 100;
      ii += di > 0 ? std::size_t{1} << k : 0;
      io += d_o > 0 ? std::size_t{1} << k : 0;
    }
    if (!on) {
      bad("face " + std::to_string(fi.idx()) + " is on none of the surfaces");
    }
    if (unclear) {
      ++st.skipped;  // near another surface
      continue;
    }
    ++st.checked;
    if (in_set[ii] == 0 || in_set[io] != 0) {
      bad("face " + std::to_string(fi.idx()) + " at (" + std::to_string(ce[0]) + ", " + std::to_string(ce[1]) + ", " + std::to_string(ce[2]) +
          ") does not have the set behind and its complement in front of it");
    }
  }
  std::sort(e.begin(), e.end());
  std::sort(back.begin(), back.end());
  if (edges == Edges::ON_WALLS) {
    std::vector<std::pair<std::size_t, std::size_t>> open;
    std::set_symmetric_difference(e.begin(), e.end(), back.begin(), back.end(), std::back_inserter(open));
    for (auto [x, y] : open) {
      bool wall = false;
      for (int k = 0; k < 2; ++k) {
        double o = k == 0 ? t[0]->x0 : t[0]->y0;
        for (double w : {o, o + t[0]->n * t[0]->step}) {
          wall = wall || (std::fabs(p[x][k] - w) < 1e-9 && std::fabs(p[y][k] - w) < 1e-9);
        }
      }
      if (!wall) {
        bad("the surface has an open edge inside the common region");
      }
    }
  } else if ((edges == Edges::MANIFOLD && std::adjacent_find(e.begin(), e.end()) != e.end()) || e != back) {
    bad("the surface is not closed");
  }
  return st;
}

inline void label_size(pbt::Case& c, std::size_t faces) {
  c.label(faces > 65536 ? "more than 65536 faces" : faces > 10000 ? "more than 10000 faces" : "smaller");
}

// Sheets over the same square.
inline Terrains gen_sheets(pbt::Case& c) {
  auto& s = c.src;
  int n = 8 * int(s.one_of<std::int64_t>({s.range(2, 5), s.range(5, 12), c.tier == "thorough" ? s.range(12, 26) : s.range(5, 16)}));
  double rough = s.one_of({0.0, 0.03, 0.2, 1.0}), waves = s.one_of({0.0, 1.5, 6.0});
  if (n > 100) {
    rough = std::min(rough, 0.03);
  }
  auto a = gen_terrain(s, n, rough, waves, s.flip());
  auto part = s.chance(1, 3) ? int(s.range(1, n)) : 0;  // the same on so many columns
  int nb = part != 0 ? n : s.one_of<int>({n, n, n / 2, n / 8, 1});
  auto b = gen_terrain(s, nb, s.one_of({0.0, rough}), s.one_of({waves, 2.0, 0.0}), s.flip());
  b.step = n / nb;
  double lift = s.one_of({0.0, 0.25, -1.0, 3.0}) + 1.0 / 16384;
  for (int j = 0; j <= nb; ++j) {
    for (int i = 0; i <= nb; ++i) {
      auto& z = b.h[std::size_t(j) * std::size_t(nb + 1) + std::size_t(i)];
      z = i < part ? a.at(i, j) : z + lift;
    }
  }
  a.base = a.above ? 1e6 : -1e6;
  b.base = b.above ? 1e6 : -1e6;
  auto ma = a.sheet(), mb = b.sheet();
  set_data(ma, 0);
  set_data(mb, kSecond);
  auto order = s.below(1 << 16);
  if (order != 0) {
    shuffle(ma, order);
    shuffle(mb, order + 1);
  }
  bool flip = s.chance(1, 3);
  c.describe("sheets of " + std::to_string(n) + " and " + std::to_string(nb) + " cells a side, roughness " + std::to_string(rough) + ", waves " +
             std::to_string(waves) + ", lift " + std::to_string(lift) + (a.above ? ", above" : ", below") + (b.above ? ", above" : ", below") +
             ", the same on " + std::to_string(part) + " columns\n");
  label_size(c, ma.f.size());
  if (flip) {
    return {b, a, mb, ma};
  }
  return {a, b, ma, mb};
}
