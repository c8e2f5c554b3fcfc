// Meshes with every kind of defect.
#pragma once
#include "oracle.h"
#include "terrain.h"

namespace gen {

using oracle::bary;

// A few lattice points: coincident, collinear and coplanar positions are common.
inline P3 lattice(pbt::Source& s, int m) { return P3{int(s.around(m)), int(s.around(m)), int(s.around(m))}; }

inline M base_mesh(pbt::Case& c) {
  auto& s = c.src;
  bool big = s.chance(1, c.tier == "thorough" ? 4 : 16);
  M m;
  switch (s.weighted({5, 3, 3, 3, 2, 1})) {
    case 0:
      m = solid(s, big);
      break;
    case 1:  // a face soup over a few lattice points
    {
      int n = int(s.range(3, 9));
      int e = int(s.range(1, 2));
      for (int i = 0; i < n; ++i) {
        add_point(m, lattice(s, e));
      }
      int k = int(s.range(1, 8));
      for (int i = 0; i < k; ++i) {
        m.f.push_back({int(s.below(n)), int(s.below(n)), int(s.below(n))});
      }
      break;
    }
    case 2:  // two solids that may intersect, touch or share parts
    {
      Pair_options o;
      o.affine = false;
      auto p = gen_pair(s, o);
      m = p.a;
      append(m, p.b);
      break;
    }
    case 3:  // a planar sheet
    {
      int e = s.chance(1, 6) ? 14 : 4;
      int nx = int(s.range(1, e)), ny = int(s.range(1, e));
      for (int y = 0; y <= ny; ++y) {
        for (int x = 0; x <= nx; ++x) {
          add_point(m, P3{x, y, 0});
        }
      }
      for (int y = 0; y < ny; ++y) {
        for (int x = 0; x < nx; ++x) {
          int a = y * (nx + 1) + x, b = a + 1, d = a + nx + 1, g = d + 1;
          m.f.push_back({a, b, g});
          m.f.push_back({a, g, d});
        }
      }
      break;
    }
    case 4:  // fans around one vertex: open, closed, several, with fins
    {
      int n = int(s.range(3, 8));
      static const int dx[] = {2, 1, -1, -2, -2, -1, 1, 2}, dy[] = {1, 2, 2, 1, -1, -2, -2, -1};
      add_point(m, P3{0, 0, 3});
      for (int i = 0; i < n; ++i) {
        int k = i * 8 / n;
        add_point(m, P3{dx[k], dy[k], 0});
      }
      for (int i = 0; i < n; ++i) {
        if (!s.chance(1, 5)) {
          m.f.push_back({0, 1 + i, 1 + (i + 1) % n});
        }
      }
      if (s.chance(1, 3)) {
        m.f.push_back({0, 1 + int(s.below(n)), add_point(m, lattice(s, 3))});
      }
      break;
    }
    default:
      break;  // empty
  }
  return m;
}

inline int any_vertex(pbt::Source& s, const M& m) { return int(s.below(m.p.size())); }

inline void damage(pbt::Source& s, M& m, std::string& what) {
  auto nf = m.f.size();
  auto k = s.weighted({4, 4, 4, 4, 3, 3, 3, 3, 3, 3, 3, 2});
  if (m.p.empty()) {
    k = 8;
  } else if (nf == 0 && k != 8 && k != 9) {
    k = 5;
  }
  switch (k) {
    case 0:
      what += " remove-face";
      m.f.erase(m.f.begin() + std::ptrdiff_t(s.below(nf)));
      break;
    case 1:
      what += " flip-face";
      {
        auto& f = m.f[s.below(nf)];
        std::swap(f[1], f[2]);
      }
      break;
    case 2:
      what += " duplicate-face";
      {
        auto f = m.f[s.below(nf)];
        int r = int(s.below(3));
        std::array<int, 3> g{f[r], f[(r + 1) % 3], f[(r + 2) % 3]};
        if (s.flip()) {
          std::swap(g[0], g[1]);
        }
        m.f.push_back(g);
      }
      break;
    case 3:
      what += " split-vertex";  // own vertices for a face: the same mesh
      {
        auto& f = m.f[s.below(nf)];
        auto& v = f[s.below(3)];
        v = add_point(m, P3{m.p[v]});
      }
      break;
    case 4:
      what += " merge-vertices";  // pinch: move every use of one vertex to another
      {
        int a = any_vertex(s, m), b = any_vertex(s, m);
        if (s.flip()) {
          for (auto& f : m.f) {
            for (auto& v : f) {
              v = v == a ? b : v;
            }
          }
        } else {
          m.p[a] = m.p[b];
        }
      }
      break;
    case 5:
      what += " add-face";
      m.f.push_back({any_vertex(s, m), any_vertex(s, m), any_vertex(s, m)});
      break;
    case 6:
      what += " add-degenerate";
      {
        int a = any_vertex(s, m), b = any_vertex(s, m);
        switch (s.below(4)) {
          case 0:
            m.f.push_back({a, b, a});
            break;
          case 1:
            m.f.push_back({a, a, b});
            break;
          case 2: {  // distinct indices, coincident positions
            int d = add_point(m, P3{m.p[a]});
            m.f.push_back({d, b, a});
            break;
          }
          default: {  // collinear
            int d = add_point(m, bary(m.p[a], m.p[b], m.p[b], int(s.range(1, 3)), 1, 0));
            std::array<int, 3> g{a, b, d};
            auto r = s.below(3);
            std::rotate(g.begin(), g.begin() + std::ptrdiff_t(r), g.end());
            m.f.push_back(g);
          }
        }
      }
      break;
    case 7:
      what += " move-vertex";
      m.p[any_vertex(s, m)] = lattice(s, 3);
      break;
    case 8:
      what += " isolated";
      {
        P3 p = m.p.empty() || s.flip() ? lattice(s, 3) : m.p[any_vertex(s, m)];
        if (s.flip() || m.p.empty()) {
          add_point(m, p);
        } else {
          // In front, so that all indices change.
          m.p.insert(m.p.begin(), p);
          for (auto& f : m.f) {
            for (auto& v : f) {
              ++v;
            }
          }
        }
      }
      break;
    case 9:
      what += " remove-some-faces";
      {
        std::vector<std::array<int, 3>> r;
        auto n = s.range(1, 3);
        for (const auto& f : m.f) {
          if (!s.chance(std::uint64_t(n), 6)) {
            r.push_back(f);
          }
        }
        m.f = r;
      }
      break;
    case 10:
      what += " add-wing";  // a face on an existing edge, with a new vertex
      {
        auto f = m.f[s.below(nf)];
        int r = int(s.below(3));
        int d = add_point(m, lattice(s, 3));
        if (s.flip()) {
          m.f.push_back({f[r], f[(r + 1) % 3], d});
        } else {
          m.f.push_back({f[(r + 1) % 3], f[r], d});
        }
      }
      break;
    default:
      what += " touch";  // a face that has a corner on another face, edge or vertex of the mesh
      {
        auto f = m.f[s.below(nf)];
        int x = int(s.below(3)), y = int(s.below(3)), z = int(s.below(3));
        if (x + y + z == 0) {
          x = 1;
        }
        int d = add_point(m, bary(m.p[f[0]], m.p[f[1]], m.p[f[2]], x, y, z));
        int e = add_point(m, lattice(s, 4)), g = add_point(m, lattice(s, 4));
        m.f.push_back({d, e, g});
      }
      break;
  }
}

// A mesh with several damages; what it is made of is appended to `what`.
inline M damaged_mesh(pbt::Case& c, std::string& what) {
  auto& s = c.src;
  auto m = base_mesh(c);
  int n = int(s.weighted({3, 3, 3, 2, 1, 1}));
  if (m.f.size() > 60 && s.flip()) {
    n += 8;
  }
  for (int i = 0; i < n; ++i) {
    damage(s, m, what);
  }
  auto t = gen_affine(s);
  if (t.name != "identity") {
    m = plain(mapped(m, t));
    what += " " + t.name;
  }
  if (s.chance(1, 3) && !m.p.empty()) {
    m = relabelled(s, m);
    what += " relabelled";
  }
  return m;
}

// Up to hundreds of faces around one edge (a book), or around one vertex (a fan, closed or not).
inline M crowd(pbt::Source& s) {
  M m;
  int n = s.chance(1, 3) ? int(s.range(9, 70)) : int(s.one_of<std::int64_t>({256, 256, 128, 512})) + int(s.around(3));
  int k = (n + 7) / 8;
  auto rim = [&](int i) {  // points on the boundary of a square
    int side = i / (2 * k), x = i % (2 * k) - k;
    return side == 0 ? P3{x, -k, 0} : side == 1 ? P3{k, x, 0} : side == 2 ? P3{-x, k, 0} : P3{-k, -x, 0};
  };
  int a = add_point(m, P3{0, 0, 2});
  int b = s.flip() ? add_point(m, P3{0, 0, -1}) : -1;
  int first = int(m.p.size());
  for (int i = 0; i < n; ++i) {
    add_point(m, rim(i));
  }
  bool closed = s.flip();
  auto how = s.below(3);
  for (int i = 0; i < n; ++i) {
    std::array<int, 3> f{a, first + i, b >= 0 ? b : first + (i + 1) % n};
    if (b < 0 && i + 1 == n && !closed) {
      break;
    }
    if (how == 1 ? i % 2 != 0 : how == 2 && s.chance(1, 4)) {
      std::swap(f[1], f[2]);
    }
    m.f.push_back(f);
  }
  return m;
}

inline M crowded_mesh(pbt::Source& s, std::string& what) {
  auto m = crowd(s);
  what += " " + std::to_string(m.f.size()) + " faces around a " + (m.f.size() > 1 && m.p.size() > 1 && m.f[0][2] == 1 ? "edge" : "vertex");
  for (auto k = s.below(4); k > 0; --k) {
    damage(s, m, what);
  }
  if (s.flip()) {
    m = relabelled(s, m);
  }
  return m;
}

// A terrain of thousands of faces in any order, with or without another mesh next to or across it, with several damages.
inline M large_damaged_mesh(pbt::Case& c, std::string& what) {
  auto& s = c.src;
  int n = int(s.one_of<std::int64_t>({s.range(16, 30), s.range(30, 50), c.tier == "thorough" || s.chance(1, 4) ? s.range(50, 190) : s.range(50, 110)}));
  auto t = gen_terrain(s, n, s.one_of({0.0, 0.03, 0.2}), s.one_of({0.0, 1.5}), s.flip());
  t.base = t.above ? 40 : -40;
  t.x0 = t.y0 = -double(s.range(0, n));
  auto m = t.mesh();
  what += " terrain of " + std::to_string(n) + " cells a side";
  if (s.chance(3, 4)) {
    auto o = base_mesh(c);
    what += o.f.empty() ? "" : " + mesh of " + std::to_string(o.f.size()) + " faces";
    append(m, o);
  }
  for (auto k = s.range(0, 6); k > 0; --k) {
    damage(s, m, what);
  }
  std::uint64_t seed = s.below(1 << 16);
  if (seed != 0) {
    what += " shuffled";
    for (std::size_t i = 0; i + 1 < m.f.size(); ++i) {
      std::swap(m.f[i], m.f[i + pbt::splitmix(seed) % (m.f.size() - i)]);
    }
    std::vector<int> id(m.p.size());
    for (std::size_t i = 0; i < id.size(); ++i) {
      id[i] = int(i);
    }
    for (std::size_t i = 0; i + 1 < id.size(); ++i) {
      std::swap(id[i], id[i + pbt::splitmix(seed) % (id.size() - i)]);
    }
    auto p = m.p;
    for (std::size_t i = 0; i < id.size(); ++i) {
      m.p[std::size_t(id[i])] = p[i];
    }
    for (auto& f : m.f) {
      for (auto& v : f) {
        v = id[std::size_t(v)];
      }
    }
  }
  return m;
}

}  // namespace gen
