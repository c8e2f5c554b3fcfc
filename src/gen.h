// Generators of valid inputs: boundary meshes that satisfy the documented preconditions (no degenerate face, no
// self-intersection, closed and consistently oriented unless stated otherwise).
#pragma once
#include <array>
#include <cmath>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <vector>

#include "engine.h"
#include "kig.h"

namespace gen {

using pbt::Case;
using pbt::Source;

struct M {
  std::vector<P3> p;
  std::vector<std::array<int, 3>> f;
  std::vector<std::int32_t> d;  // face data; empty: all -1
};

inline int add_point(M& m, const P3& p) {
  m.p.push_back(p);
  return static_cast<int>(m.p.size()) - 1;
}

inline void append(M& a, const M& b) {
  int o = static_cast<int>(a.p.size());
  a.p.insert(a.p.end(), b.p.begin(), b.p.end());
  for (auto f : b.f) {
    a.f.push_back({f[0] + o, f[1] + o, f[2] + o});
  }
}

inline M inverted(M m) {
  for (auto& f : m.f) {
    std::swap(f[1], f[2]);
  }
  return m;
}

template <class Fn>
M mapped(M m, Fn fn) {
  for (auto& p : m.p) {
    p = fn(p);
  }
  return m;
}

inline Soup to_soup(const M& m) {
  std::vector<Face> f;
  std::vector<FD> d;
  for (std::size_t i = 0; i < m.f.size(); ++i) {
    const auto& t = m.f[i];
    f.push_back({Vertex_index{std::size_t(t[0])}, Vertex_index{std::size_t(t[1])}, Vertex_index{std::size_t(t[2])}});
    d.push_back(FD{i < m.d.size() ? m.d[i] : -1});
  }
  return Soup{m.p, std::move(f), std::move(d)};
}
inline Region to_region(const M& m) { return Region{to_soup(m)}; }

// The same point, with each coordinate represented in a way of its own: as a double if it is one, as an evaluated rational, as
// an expression whose interval approximation is not a point until it is evaluated, or with the sign of zero flipped.  The
// number objects are new, so that nothing the harness evaluates is shared with the code under test.
inline P3 represented(pbt::Source& s, const P3& p) {
  using Q = CGAL::Exact_rational;
  const auto& e = p.exact();
  auto f = [&](const Q& x) {
    switch (s.below(4)) {
      case 0:
        return FT{x};
      case 1: {
        FT third = FT{1} / FT{3};
        return (FT{x} + third) - third;
      }
      case 2: {
        FT seventh = FT{1} / FT{7};
        return (FT{x} * seventh) / seventh;
      }
      default: {
        auto d = CGAL::to_double(x);
        return x == 0 ? FT{-0.0} : Q{d} == x ? FT{d} : FT{x};
      }
    }
  };
  return P3{f(e.x()), f(e.y()), f(e.z())};
}

// All or some of the points represented anew.
inline M represented(pbt::Source& s, M m) {
  bool all = s.flip();
  for (auto& p : m.p) {
    if (all || s.flip()) {
      p = represented(s, p);
    }
  }
  return m;
}
inline M from_soup(const Soup& s) {
  M m;
  for (auto v : s.vertices()) {
    m.p.push_back(s.point(v));
  }
  for (auto fi : s.faces()) {
    const auto& f = s.face(fi);
    m.f.push_back({int(f[0].idx()), int(f[1].idx()), int(f[2].idx())});
    m.d.push_back(s.data(fi).v);
  }
  return m;
}

inline std::string fmt(const FT& x) {
  auto iv = x.approx();
  std::ostringstream o;
  if (iv.is_point()) {
    o.precision(17);
    o << iv.inf();
  } else {
    o << x.exact();
  }
  return o.str();
}
inline std::string fmt(const P3& p) { return fmt(p.x()) + " " + fmt(p.y()) + " " + fmt(p.z()); }

inline std::string show(const M& m) {
  std::string s = std::to_string(m.p.size()) + " vertices " + std::to_string(m.f.size()) + " faces\n";
  for (const auto& p : m.p) {
    s += fmt(p) + "\n";
  }
  for (std::size_t i = 0; i < m.f.size(); ++i) {
    const auto& f = m.f[i];
    s += "f " + std::to_string(f[0]) + " " + std::to_string(f[1]) + " " + std::to_string(f[2]);
    if (i < m.d.size()) {
      s += " d=" + std::to_string(m.d[i]);
    }
    s += "\n";
  }
  return s;
}
inline std::string show_short(const M& m) {
  std::string s = "[" + std::to_string(m.p.size()) + "v " + std::to_string(m.f.size()) + "f:";
  for (std::size_t i = 0; i < m.p.size() && i < 8; ++i) {
    s += " (" + fmt(m.p[i]) + ")";
  }
  return s + (m.p.size() > 8 ? " ...]" : "]");
}

// ---------------------------------------------------------------------------------------------------------------------
// Voxel solids: the boundary of a union of cells of a (possibly non-uniform) grid.  Non-manifold edges and vertices,
// several components, cavities and tunnels arise naturally; two solids of the same grid share faces, edges and vertices.

struct Grid {
  std::array<std::vector<double>, 3> c;  // coordinates of the grid planes
  std::array<int, 3> n() const { return {int(c[0].size()) - 1, int(c[1].size()) - 1, int(c[2].size()) - 1}; }
};

inline Grid gen_grid(Source& s, int max_n) {
  Grid g;
  bool uniform = !s.chance(1, 3);
  for (auto& c : g.c) {
    int n = int(s.range(1, max_n));
    double x = 0;
    c.push_back(x);
    for (int i = 0; i < n; ++i) {
      x += uniform ? 1.0 : s.one_of({1.0, 0.5, 2.0, 0.25, 3.0});
      c.push_back(x);
    }
  }
  return g;
}

using Cells = std::set<std::array<int, 3>>;

inline Cells gen_cells(Source& s, const Grid& g) {
  Cells r;
  auto n = g.n();
  auto k = s.weighted({4, 3, 2});
  if (k == 0) {  // a few cells
    int m = int(s.range(1, 4));
    for (int i = 0; i < m; ++i) {
      r.insert({int(s.below(n[0])), int(s.below(n[1])), int(s.below(n[2]))});
    }
  } else if (k == 1) {  // random density
    auto den = s.one_of<int>({2, 3, 4});
    for (int x = 0; x < n[0]; ++x) {
      for (int y = 0; y < n[1]; ++y) {
        for (int z = 0; z < n[2]; ++z) {
          if (s.chance(1, den)) {
            r.insert({x, y, z});
          }
        }
      }
    }
  } else {  // a box
    std::array<int, 3> a{}, b{};
    for (int i = 0; i < 3; ++i) {
      a[i] = int(s.below(n[i]));
      b[i] = int(s.range(a[i], n[i] - 1));
    }
    for (int x = a[0]; x <= b[0]; ++x) {
      for (int y = a[1]; y <= b[1]; ++y) {
        for (int z = a[2]; z <= b[2]; ++z) {
          r.insert({x, y, z});
        }
      }
    }
  }
  if (r.empty()) {
    r.insert({0, 0, 0});
  }
  return r;
}

struct Voxel_style {
  int diagonal = 0;       // 0: all alike, 1: random per face, 2: determined by the position (alike in both solids)
  bool quad_centre{};     // split each quad into four triangles around its centre
  std::map<std::array<int, 3>, std::array<double, 3>>* perturb{};  // grid vertex offsets (shared between solids)
  bool split_corner{};    // do not share vertices between different cells' corners at random (duplicate points)
};

inline M voxel_mesh(Source& s, const Grid& g, const Cells& cells, const Voxel_style& st) {
  M m;
  std::map<std::array<int, 3>, int> vid;
  auto vertex = [&](std::array<int, 3> k) {
    auto it = vid.find(k);
    if (it != vid.end()) {
      return it->second;
    }
    std::array<double, 3> x{g.c[0][k[0]], g.c[1][k[1]], g.c[2][k[2]]};
    if (st.perturb != nullptr) {
      auto& t = *st.perturb;
      auto jt = t.find(k);
      if (jt == t.end()) {
        std::array<double, 3> o{};
        for (int i = 0; i < 3; ++i) {
          // Steps are at least 1/4, so an offset of 1/64 leaves every pair of faces disjoint.
          o[i] = double(s.around(4)) / 256.0;
        }
        jt = t.emplace(k, o).first;
      }
      for (int i = 0; i < 3; ++i) {
        x[i] += jt->second[i];
      }
    }
    int id = add_point(m, P3{x[0], x[1], x[2]});
    vid[k] = id;
    return id;
  };
  for (const auto& c : cells) {
    for (int ax = 0; ax < 3; ++ax) {
      for (int dir = 0; dir < 2; ++dir) {
        auto nb = c;
        nb[ax] += dir ? 1 : -1;
        if (cells.count(nb)) {
          continue;
        }
        int u = (ax + 1) % 3, v = (ax + 2) % 3;
        std::array<int, 3> k = c;
        k[ax] += dir;
        auto k00 = k, k10 = k, k11 = k, k01 = k;
        k10[u]++;
        k11[u]++;
        k11[v]++;
        k01[v]++;
        int a = vertex(k00), b = vertex(k10), cc = vertex(k11), d = vertex(k01);
        if (dir == 0) {
          std::swap(b, d);
        }
        if (st.quad_centre && st.perturb == nullptr && s.flip()) {
          auto ctr = CGAL::midpoint(m.p[a], m.p[cc]);
          int e = add_point(m, P3{CGAL::to_double(ctr.x()), CGAL::to_double(ctr.y()), CGAL::to_double(ctr.z())});
          m.f.push_back({a, b, e});
          m.f.push_back({b, cc, e});
          m.f.push_back({cc, d, e});
          m.f.push_back({d, a, e});
          continue;
        }
        bool alt = st.diagonal == 1 ? s.flip() : st.diagonal == 2 ? ((k[0] + k[1] + k[2] + ax) % 2 != 0) : false;
        if (alt) {
          m.f.push_back({a, b, d});
          m.f.push_back({b, cc, d});
        } else {
          m.f.push_back({a, b, cc});
          m.f.push_back({a, cc, d});
        }
      }
    }
  }
  return m;
}

// ---------------------------------------------------------------------------------------------------------------------
// Star-shaped solids around the origin: a triangulated sphere of integer directions with a radius per vertex.

inline M base_tetra() {
  M m;
  m.p = {P3{1, 1, 1}, P3{-1, -1, 1}, P3{-1, 1, -1}, P3{1, -1, -1}};
  m.f = {{0, 2, 1}, {0, 1, 3}, {0, 3, 2}, {1, 2, 3}};
  return m;
}
inline M base_octa() {
  M m;
  m.p = {P3{1, 0, 0}, P3{-1, 0, 0}, P3{0, 1, 0}, P3{0, -1, 0}, P3{0, 0, 1}, P3{0, 0, -1}};
  m.f = {{0, 2, 4}, {2, 1, 4}, {1, 3, 4}, {3, 0, 4}, {2, 0, 5}, {1, 2, 5}, {3, 1, 5}, {0, 3, 5}};
  return m;
}
inline M base_cube() {
  Grid g;
  for (auto& c : g.c) {
    c = {-1, 1};
  }
  Cells cs{{0, 0, 0}};
  M m;
  std::map<std::array<int, 3>, int> v;
  for (int x = 0; x < 2; ++x) {
    for (int y = 0; y < 2; ++y) {
      for (int z = 0; z < 2; ++z) {
        v[{x, y, z}] = add_point(m, P3{2 * x - 1, 2 * y - 1, 2 * z - 1});
      }
    }
  }
  for (int ax = 0; ax < 3; ++ax) {
    for (int dir = 0; dir < 2; ++dir) {
      int u = (ax + 1) % 3, w = (ax + 2) % 3;
      std::array<int, 3> k{};
      k[ax] = dir;
      auto k00 = k, k10 = k, k11 = k, k01 = k;
      k10[u]++;
      k11[u]++;
      k11[w]++;
      k01[w]++;
      int a = v[k00], b = v[k10], cc = v[k11], d = v[k01];
      if (dir == 0) {
        std::swap(b, d);
      }
      m.f.push_back({a, b, cc});
      m.f.push_back({a, cc, d});
    }
  }
  return m;
}
inline M base_bipyramid(Source& s) {
  int n = int(s.range(3, 7));
  // Integer directions in cyclic order, no two spanning half a turn or more.
  static const std::array<std::array<int, 2>, 12> dirs{{{4, 0}, {4, 2}, {2, 4}, {0, 4}, {-2, 4}, {-4, 2},
                                                        {-4, 0}, {-4, -2}, {-2, -4}, {0, -4}, {2, -4}, {4, -2}}};
  std::set<int> pick;
  for (int i = 0; i < n; ++i) {
    pick.insert((12 * i) / n);
  }
  std::vector<int> d(pick.begin(), pick.end());
  M m;
  for (int i : d) {
    add_point(m, P3{dirs[i][0], dirs[i][1], 0});
  }
  int k = int(d.size());
  int top = add_point(m, P3{0, 0, 4}), bot = add_point(m, P3{0, 0, -4});
  for (int i = 0; i < k; ++i) {
    int j = (i + 1) % k;
    m.f.push_back({i, j, top});
    m.f.push_back({j, i, bot});
  }
  return m;
}

// 1 -> 4 subdivision of every face (directions need not be normalised).
inline M subdivided(const M& m) {
  M r;
  r.p = m.p;
  std::map<std::pair<int, int>, int> mid;
  auto get = [&](int a, int b) {
    auto k = std::minmax(a, b);
    auto it = mid.find(k);
    if (it != mid.end()) {
      return it->second;
    }
    const auto& p = r.p[a];
    const auto& q = r.p[b];
    auto d = [](const FT& x, const FT& y) { return (CGAL::to_double(x) + CGAL::to_double(y)) / 2; };
    int id = add_point(r, P3{d(p.x(), q.x()), d(p.y(), q.y()), d(p.z(), q.z())});
    mid[k] = id;
    return id;
  };
  for (auto f : m.f) {
    int a = get(f[0], f[1]), b = get(f[1], f[2]), c = get(f[2], f[0]);
    r.f.push_back({f[0], a, c});
    r.f.push_back({a, f[1], b});
    r.f.push_back({c, b, f[2]});
    r.f.push_back({a, b, c});
  }
  return r;
}

inline M star_base(Source& s, bool big) {
  M m;
  switch (s.weighted({3, 3, 2, 2})) {
    case 0:
      m = base_tetra();
      break;
    case 1:
      m = base_octa();
      break;
    case 2:
      m = base_cube();
      break;
    default:
      m = base_bipyramid(s);
      break;
  }
  int sub = m.f.size() <= 8 ? int(s.weighted({3, 3, big ? 1U : 0U})) : int(s.weighted({4, big ? 1U : 0U}));
  for (int i = 0; i < sub; ++i) {
    m = subdivided(m);
  }
  return m;
}
inline M star_solid(Source& s, bool big) {
  M m = star_base(s, big);
  auto kind = s.weighted({2, 3, 1});
  if (kind != 0) {
    for (auto& p : m.p) {
      double r = kind == 1 ? double(s.range(2, 8)) / 4.0 : s.one_of({1.0, 0.5, 2.0});
      p = P3{CGAL::to_double(p.x()) * r, CGAL::to_double(p.y()) * r, CGAL::to_double(p.z()) * r};
    }
  }
  return m;
}
// A general tetrahedron with small integer vertices.
inline M tetra_solid(Source& s) {
  M m;
  for (int k = 0; k < 4; ++k) {
    m.p.push_back(P3{int(s.around(3)), int(s.around(3)), int(s.around(3))});
  }
  auto o = CGAL::orientation(m.p[0], m.p[1], m.p[2], m.p[3]);
  if (o == CGAL::COPLANAR) {
    m.p = {P3{0, 0, 0}, P3{1, 0, 0}, P3{0, 1, 0}, P3{0, 0, 1}};
    o = CGAL::POSITIVE;
  }
  m.f = {{0, 2, 1}, {0, 1, 3}, {0, 3, 2}, {1, 2, 3}};
  return o == CGAL::POSITIVE ? m : inverted(m);
}

inline double dbl(const FT& x) { return CGAL::to_double(x); }

inline M scaled(const M& m, double k) {
  return mapped(m, [&](const P3& p) { return P3{dbl(p.x()) * k, dbl(p.y()) * k, dbl(p.z()) * k}; });
}
inline M translated(const M& m, double x, double y, double z) {
  return mapped(m, [&](const P3& p) { return P3{dbl(p.x()) + x, dbl(p.y()) + y, dbl(p.z()) + z}; });
}

// Nested shells around the origin: outer, cavity, island, ...
inline M nested_solid(Source& s, bool big) {
  M o = star_solid(s, big);
  M r = o;
  double k = 1;
  int n = int(s.range(1, 2));
  for (int i = 0; i < n; ++i) {
    k /= s.one_of({2.0, 4.0});
    append(r, i % 2 == 0 ? inverted(scaled(o, k)) : scaled(o, k));
  }
  return r;
}

// ---------------------------------------------------------------------------------------------------------------------
// Re-triangulations that leave the surface unchanged.

inline M refined(Source& s, M m, int steps) {
  for (int t = 0; t < steps; ++t) {
    if (m.f.empty()) {
      return m;
    }
    auto fi = s.below(m.f.size());
    auto f = m.f[fi];
    if (s.flip()) {  // insert a vertex inside a face
      auto w = s.one_of<int>({0, 1, 2});
      // (a + b + 2c)/4 and rotations: exact in doubles for dyadic input
      const auto &a = m.p[f[w]], &b = m.p[f[(w + 1) % 3]], &c = m.p[f[(w + 2) % 3]];
      auto mix = [](const FT& x, const FT& y, const FT& z) { return (x + y + 2 * z) / 4; };
      int e = add_point(m, P3{mix(a.x(), b.x(), c.x()), mix(a.y(), b.y(), c.y()), mix(a.z(), b.z(), c.z())});
      m.f[fi] = {f[0], f[1], e};
      m.f.push_back({f[1], f[2], e});
      m.f.push_back({f[2], f[0], e});
    } else {  // split an edge in every face that has it
      auto i = s.below(3);
      int a = f[i], b = f[(i + 1) % 3];
      const P3 pa = m.p[a], pb = m.p[b];
      int e = add_point(m, P3{(pa.x() + pb.x()) / 2, (pa.y() + pb.y()) / 2, (pa.z() + pb.z()) / 2});
      auto n = m.f.size();
      for (std::size_t j = 0; j < n; ++j) {
        for (int k = 0; k < 3; ++k) {
          auto g = m.f[j];
          int x = g[k], y = g[(k + 1) % 3], z = g[(k + 2) % 3];
          // By position: duplicate vertices must not leave a T-junction.
          auto at = [&](int v, const P3& w) { return m.p[v] == w; };
          if ((at(x, pa) && at(y, pb)) || (at(x, pb) && at(y, pa))) {
            m.f[j] = {x, e, z};
            m.f.push_back({e, y, z});
            break;
          }
        }
      }
    }
  }
  // Keep plain doubles where the value is one (to_double is exact then).
  for (auto& p : m.p) {
    if (p.approx().x().is_point() && p.approx().y().is_point() && p.approx().z().is_point()) {
      continue;
    }
    P3 q{dbl(p.x()), dbl(p.y()), dbl(p.z())};
    if (q == p) {
      p = q;
    }
  }
  return m;
}

// Renumbers vertices, reorders faces, rotates corners, adds isolated and duplicate vertices: the same surface.
struct Relabel {
  bool dup_vertices = true, isolated = true;
};
inline M relabelled(Source& s, const M& m, Relabel o = {}) {
  M r;
  std::vector<int> order(m.p.size());
  for (std::size_t i = 0; i < order.size(); ++i) {
    order[i] = int(i);
  }
  s.shuffle(order);
  std::vector<std::vector<int>> ids(m.p.size());
  for (int v : order) {
    if (o.isolated && s.chance(1, 16)) {
      add_point(r, P3{int(s.around(5)), int(s.around(5)), int(s.around(5))});
    }
    ids[v].push_back(add_point(r, m.p[v]));
    if (o.dup_vertices && s.chance(1, 6)) {
      ids[v].push_back(add_point(r, m.p[v]));
    }
  }
  std::vector<int> fo(m.f.size());
  for (std::size_t i = 0; i < fo.size(); ++i) {
    fo[i] = int(i);
  }
  s.shuffle(fo);
  for (int i : fo) {
    auto rot = s.below(3);
    std::array<int, 3> f{};
    for (std::size_t k = 0; k < 3; ++k) {
      const auto& c = ids[m.f[i][(k + rot) % 3]];
      f[k] = c[s.below(c.size())];
    }
    r.f.push_back(f);
    if (!m.d.empty()) {
      r.d.push_back(m.d[i]);
    }
  }
  return r;
}

// ---------------------------------------------------------------------------------------------------------------------
// Orientation-preserving affine maps applied to both operands alike.

struct Affine {
  std::array<std::array<FT, 3>, 3> a;
  std::array<FT, 3> t;
  std::string name;
  P3 operator()(const P3& p) const {
    std::array<FT, 3> r;
    for (int i = 0; i < 3; ++i) {
      r[i] = a[i][0] * p.x() + a[i][1] * p.y() + a[i][2] * p.z() + t[i];
    }
    return P3{r[0], r[1], r[2]};
  }
};
inline Affine identity() {
  Affine m;
  for (int i = 0; i < 3; ++i) {
    for (int j = 0; j < 3; ++j) {
      m.a[i][j] = FT{i == j ? 1 : 0};
    }
    m.t[i] = FT{0};
  }
  m.name = "identity";
  return m;
}
// A length much smaller than the distance of the doubles around 1.
inline FT tiny(Source& s) {
  auto k = FT{std::ldexp(1.0, -int(s.range(56, 130)))};
  return s.flip() ? k : k / FT{3};
}
inline Affine gen_affine(Source& s) {
  Affine m = identity();
  switch (s.weighted({5, 2, 2, 2, 2, 1, 1, 1, 1})) {
    case 0:
      return m;
    case 1: {  // a rotation with rational entries
      int ax = int(s.below(3));
      int u = (ax + 1) % 3, v = (ax + 2) % 3;
      m.a[u][u] = FT{3} / FT{5};
      m.a[u][v] = FT{-4} / FT{5};
      m.a[v][u] = FT{4} / FT{5};
      m.a[v][v] = FT{3} / FT{5};
      m.name = "rational rotation";
      break;
    }
    case 2: {  // shear with integers
      m.a[0][1] = FT{int(s.around(3))};
      m.a[0][2] = FT{int(s.around(3))};
      m.a[1][2] = FT{int(s.around(3))};
      m.name = "integer shear";
      break;
    }
    case 3: {  // thirds
      for (int i = 0; i < 3; ++i) {
        m.a[i][i] = FT{int(s.range(1, 3))} / FT{3};
        m.t[i] = FT{int(s.around(6))} / FT{7};
      }
      m.name = "thirds";
      break;
    }
    case 4: {  // large offset in doubles
      for (int i = 0; i < 3; ++i) {
        m.t[i] = FT{std::ldexp(double(s.around(3)), 40)};
      }
      m.name = "large offset";
      break;
    }
    case 5: {  // extreme scale
      FT k{std::ldexp(1.0, int(s.around(200)))};
      for (int i = 0; i < 3; ++i) {
        m.a[i][i] = k;
      }
      m.name = "extreme scale";
      break;
    }
    case 7: {  // so small beside the offset that all vertices round to the same doubles
      FT k = tiny(s);
      for (int i = 0; i < 3; ++i) {
        m.a[i][i] = k;
        m.t[i] = s.flip() ? FT{1} : FT{int(s.around(6))} / FT{7};
      }
      m.name = "microscopic";
      break;
    }
    case 8: {  // the same along one axis only
      auto i = s.below(3);
      m.a[i][i] = tiny(s);
      m.t[i] = s.flip() ? FT{1} : FT{int(s.around(6))} / FT{7};
      m.name = "flattened";
      break;
    }
    default: {  // axis permutation
      for (int i = 0; i < 3; ++i) {
        for (int j = 0; j < 3; ++j) {
          m.a[i][j] = FT{j == (i + 1) % 3 ? 1 : 0};
        }
      }
      m.name = "axis permutation";
      break;
    }
  }
  return m;
}
inline M plain(M m) {
  for (auto& p : m.p) {
    P3 q{dbl(p.x()), dbl(p.y()), dbl(p.z())};
    if (q == p) {
      p = q;
    }
  }
  return m;
}

// ---------------------------------------------------------------------------------------------------------------------
// Pairs of closed regions.

struct Pair {
  M a, b;
  std::string relation;
};

struct Pair_options {
  int components{60};  // at most, of solids of many components
  bool big{};
  bool complements{true};
  bool affine{true};
  bool relabel{true};
};

inline M solid(Source& s, bool big) {
  switch (s.weighted({4, 4, 2, 2})) {
    case 0: {
      auto g = gen_grid(s, big ? 4 : 2);
      auto cells = gen_cells(s, g);
      Voxel_style st;
      st.diagonal = int(s.below(3));
      st.quad_centre = s.chance(1, 5);
      std::map<std::array<int, 3>, std::array<double, 3>> pert;
      if (s.chance(1, 3)) {
        st.perturb = &pert;
      }
      return voxel_mesh(s, g, cells, st);
    }
    case 1:
      return star_solid(s, big);
    case 2:
      return tetra_solid(s);
    default:
      return nested_solid(s, big);
  }
}

inline double small_offset(Source& s) { return s.one_of({0.0, 1.0, 0.5, -1.0, -0.5, 0.25, 2.0, 0.125, -0.25, 3.0}); }

// Four interlocked sticks. Seen from the origin, the centroid of each of their faces is hidden exactly by an edge: each stick has a
// ridge towards the origin, behind which the centroids of its rear faces lie, and the centroids of its front faces lie behind the
// ridge of the next stick.
inline M interlocked_sticks(Source& s) {
  double e = s.one_of({0.5, 0.25, 1.0, 0.375}), za = 8, zb = double(s.range(15, 18)), zm = zb - double(s.range(2, 3));
  double p = s.one_of({2.25, 2.0, 2.5}), q = s.one_of({2.5, 2.25, 3.0}), w = s.one_of({0.25, 0.125, 0.5}) * e;
  M m;
  for (int turn = 0; turn < 4; ++turn) {
    auto v = [&](double x, double y, double z) {
      for (int i = 0; i < turn; ++i) {
        std::swap(x, y);
        x = -x;
      }
      return P3{x, y, z};
    };
    double x = e * (za + zb + zm + p * za - q * zb);
    M t;
    t.p = {v(-p * e * za, e * za, za), v(q * e * zb, e * zb, zb), v(x, e * zm + w, zm), v(x, e * zm - w, zm)};
    t.f = {{0, 2, 1}, {0, 1, 3}, {0, 3, 2}, {1, 2, 3}};
    append(m, CGAL::orientation(t.p[0], t.p[1], t.p[2], t.p[3]) == CGAL::POSITIVE ? t : inverted(t));
  }
  return m;
}

inline Pair gen_pair(Source& s, Pair_options o = {}) {
  Pair r;
  switch (s.weighted({20, 16, 12, 12, 8, 8, 8, 8, 2, 1})) {
    case 0: {  // two solids of one grid
      auto g = gen_grid(s, o.big ? 4 : 3);
      Voxel_style st;
      st.diagonal = int(s.below(3));
      st.quad_centre = s.chance(1, 6);
      std::map<std::array<int, 3>, std::array<double, 3>> pert;
      if (s.chance(1, 4)) {
        st.perturb = &pert;
      }
      auto ca = gen_cells(s, g), cb = gen_cells(s, g);
      r.a = voxel_mesh(s, g, ca, st);
      r.b = voxel_mesh(s, g, cb, st);
      r.relation = st.perturb ? "same grid, perturbed" : "same grid";
      break;
    }
    case 1: {  // independent solids near each other
      r.a = solid(s, o.big);
      r.b = solid(s, o.big);
      double x = small_offset(s), y = small_offset(s), z = small_offset(s);
      r.b = translated(r.b, x, y, z);
      r.relation = "independent";
      break;
    }
    case 2: {  // a star and the same star with some radii changed: shared faces, edges and vertices
      M base = star_base(s, o.big);
      r.a = base;
      r.b = base;
      for (std::size_t i = 0; i < base.p.size(); ++i) {
        auto k = s.weighted({5, 2, 2});
        double ra = double(s.range(2, 6)) / 4.0, rb = ra;
        if (k == 1) {
          rb = double(s.range(2, 6)) / 4.0;
        } else if (k == 2) {
          rb = ra * 2;
        }
        auto sc = [&](double q) { return P3{dbl(base.p[i].x()) * q, dbl(base.p[i].y()) * q, dbl(base.p[i].z()) * q}; };
        r.a.p[i] = sc(ra);
        r.b.p[i] = sc(rb);
      }
      r.relation = "same star, some radii differ";
      break;
    }
    case 3: {  // the same surface, triangulated differently
      r.a = solid(s, o.big);
      r.b = refined(s, r.a, int(s.range(0, 4)));
      if (s.flip()) {
        r.a = refined(s, r.a, int(s.range(0, 3)));
      }
      r.relation = "same surface";
      break;
    }
    case 4: {  // translated copy
      r.a = solid(s, o.big);
      double x = small_offset(s), y = small_offset(s), z = small_offset(s);
      r.b = translated(r.a, x, y, z);
      r.relation = "translated copy";
      break;
    }
    case 5: {  // scaled copy (nested or touching)
      r.a = solid(s, o.big);
      r.b = scaled(r.a, s.one_of({0.5, 2.0, 0.25, 1.5}));
      r.relation = "scaled copy";
      break;
    }
    case 6: {  // a component of the other operand, or of its complement
      M x = solid(s, o.big), y = solid(s, o.big);
      y = translated(y, 16, double(s.around(2)), 0);
      M z = solid(s, o.big);
      z = translated(z, s.flip() ? -16 : 32, 0, 0);
      r.a = x;
      append(r.a, y);
      r.b = s.flip() ? y : x;
      if (s.flip()) {
        append(r.b, z);
      }
      if (s.flip()) {
        std::swap(r.a, r.b);
      }
      r.relation = "shared components";
      break;
    }
    case 8: {  // many components
      auto n = int(s.size(8, o.components));
      auto shape = [&] { return s.one_of({0, 1, 2}); };
      auto make = [](int k) { return k == 0 ? base_tetra() : k == 1 ? base_octa() : base_cube(); };
      auto at = [](int i, const M& m) { return translated(m, 4.0 * (i % 5), 4.0 * (i / 5 % 4), 4.0 * (i / 20)); };
      bool slab = s.chance(1, 3);
      for (int i = 0; i < n; ++i) {
        auto k = shape();
        append(r.a, at(i, make(k)));
        if (slab) {
          continue;
        }
        switch (s.weighted({3, 2, 1, 1, 1, 1})) {
          case 0:
            append(r.b, at(i, make(k)));
            break;
          case 1:
            break;
          case 2:
            append(r.b, at(i, scaled(make(k), s.flip() ? 0.5 : 1.25)));
            break;
          case 3:
            append(r.b, at(i, translated(make(k), s.flip() ? 1 : 0.5, 0, 0)));
            break;
          case 4:
            append(r.b, at(i, make(shape())));
            break;
          default:
            append(r.b, at(i, translated(make(k), 0, 1.5, 0)));
        }
      }
      if (r.b.f.empty()) {  // a slab through some of them
        double tilt = s.one_of({0.0, 0.5, 1.0, 3.0});
        r.b = mapped(base_cube(), [&](const P3& p) { return P3{p.x() * 32, p.y() * 4 + p.x() * tilt, p.z() * 32}; });
      }
      r.relation = slab ? "many components and a slab" : "many components, some differ";
      break;
    }
    case 9: {  // the side of a face can only be told by looking past the edges of many
      r.a = interlocked_sticks(s);
      double k = s.one_of({0.25, 0.5, 0.125});
      r.b.p = {P3{k, 0, 0}, P3{0, k, 0}, P3{-k, -k, 0}, P3{0, 0, s.flip() ? -k : k}};
      r.b.f = {{0, 2, 1}, {0, 1, 3}, {0, 3, 2}, {1, 2, 3}};
      if (CGAL::orientation(r.b.p[0], r.b.p[1], r.b.p[2], r.b.p[3]) != CGAL::POSITIVE) {
        r.b = inverted(r.b);
      }
      r.relation = "before interlocked sticks";
      break;
    }
    default: {  // B has its vertices on the surface of A
      r.a = star_solid(s, false);
      M t;
      for (int k = 0; k < 4; ++k) {
        const auto& f = r.a.f[s.below(r.a.f.size())];
        double w0 = double(s.below(5)), w1 = double(s.below(5 - std::uint64_t(w0)));
        double w2 = 4 - w0 - w1;
        auto c = [&](int i) {
          return (w0 * dbl(r.a.p[f[0]][i]) + w1 * dbl(r.a.p[f[1]][i]) + w2 * dbl(r.a.p[f[2]][i])) / 4;
        };
        t.p.push_back(P3{c(0), c(1), c(2)});
      }
      auto ori = CGAL::orientation(t.p[0], t.p[1], t.p[2], t.p[3]);
      if (ori == CGAL::COPLANAR) {
        t = scaled(base_tetra(), 0.5);
        ori = CGAL::POSITIVE;
      }
      t.f = {{0, 2, 1}, {0, 1, 3}, {0, 3, 2}, {1, 2, 3}};
      r.b = ori == CGAL::POSITIVE ? t : inverted(t);
      r.relation = "inscribed tetrahedron";
      break;
    }
  }
  if (o.complements) {
    if (s.chance(1, 5)) {
      r.a = inverted(r.a);
      r.relation += ", A complemented";
    }
    if (s.chance(1, 5)) {
      r.b = inverted(r.b);
      r.relation += ", B complemented";
    }
  }
  if (s.chance(1, 8)) {
    std::swap(r.a, r.b);
  }
  if (o.affine) {
    auto t = gen_affine(s);
    if (t.name != "identity") {
      r.a = plain(mapped(r.a, t));
      r.b = plain(mapped(r.b, t));
      r.relation += ", " + t.name;
    }
  }
  if (o.affine && s.chance(1, 12)) {  // B displaced by less than the distance of neighbouring doubles
    auto ax = s.below(3);
    FT d = s.flip() ? tiny(s) : -tiny(s);
    r.b = mapped(r.b, [&](const P3& p) {
      std::array<FT, 3> x{p.x(), p.y(), p.z()};
      x[ax] += d;
      return P3{x[0], x[1], x[2]};
    });
    r.relation += ", B displaced minutely";
  }
  if (o.relabel && s.chance(1, 3)) {
    r.a = relabelled(s, r.a);
    r.b = relabelled(s, r.b);
  }
  return r;
}

}  // namespace gen
