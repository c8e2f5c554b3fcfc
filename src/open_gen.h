// Open meshes clipped by a common box: height fields over one of the box's sides.
#pragma once
#include "boolean_oracle.h"

namespace gen {

struct Box {
  std::array<int, 3> n;  // the box is [0, n[0]] x [0, n[1]] x [0, n[2]]
};

struct Clipped {
  M open;    // what the code under test gets
  M closed;  // the same region, closed outside the box: for the oracle
  bool is_open{};
  std::string what;
};

// One height per grid point of the base of the box along `ax`.
using Heights = std::vector<double>;

struct Sheet_style {
  int diagonal{};
};

inline Clipped sheets(Source& s, const Box& box, int ax, const Heights& top, const Heights* bottom, int diagonal) {
  int u = (ax + 1) % 3, v = (ax + 2) % 3;
  int nu = box.n[u], nv = box.n[v];
  auto id = [&](int i, int j) { return i * (nv + 1) + j; };
  auto point = [&](int i, int j, double h) {
    std::array<double, 3> x{};
    x[u] = i;
    x[v] = j;
    x[ax] = h;
    return P3{x[0], x[1], x[2]};
  };
  Clipped r;
  r.is_open = true;
  std::vector<std::array<int, 3>> up;
  for (int i = 0; i < nu; ++i) {
    for (int j = 0; j < nv; ++j) {
      int a = id(i, j), b = id(i + 1, j), c = id(i + 1, j + 1), d = id(i, j + 1);
      bool alt = diagonal == 1 ? s.flip() : diagonal == 2 ? ((i + j) % 2 != 0) : false;
      if (alt) {
        up.push_back({a, b, d});
        up.push_back({b, c, d});
      } else {
        up.push_back({a, b, c});
        up.push_back({a, c, d});
      }
    }
  }
  int np = (nu + 1) * (nv + 1);
  for (int i = 0; i <= nu; ++i) {
    for (int j = 0; j <= nv; ++j) {
      r.open.p.push_back(point(i, j, top[id(i, j)]));
    }
  }
  r.open.f = up;
  if (bottom) {
    for (int i = 0; i <= nu; ++i) {
      for (int j = 0; j <= nv; ++j) {
        r.open.p.push_back(point(i, j, (*bottom)[id(i, j)]));
      }
    }
    for (auto f : up) {
      r.open.f.push_back({f[0] + np, f[2] + np, f[1] + np});
    }
  }

  // The closed version continues the sheets by one cell beyond the box and is closed out there.
  int mu = nu + 2, mv = nv + 2, mp = (mu + 1) * (mv + 1);
  auto xid = [&](int i, int j) { return i * (mv + 1) + j; };
  for (int layer = 0; layer < 2; ++layer) {
    for (int i = 0; i <= mu; ++i) {
      for (int j = 0; j <= mv; ++j) {
        int ci = std::clamp(i - 1, 0, nu), cj = std::clamp(j - 1, 0, nv);
        double h = layer == 0 ? top[id(ci, cj)] : bottom ? (*bottom)[id(ci, cj)] : -1.0;
        if (layer == 1 && i == 0 && h == top[id(ci, cj)]) {
          h -= 0.125;  // a slab that ends at the box's side opens again beyond it
        }
        r.closed.p.push_back(point(i - 1, j - 1, h));
      }
    }
  }
  std::vector<std::array<int, 3>> xup;
  for (const auto& f : up) {  // inside the box: the same faces
    std::array<int, 3> g{};
    for (int k = 0; k < 3; ++k) {
      g[k] = xid(f[k] / (nv + 1) + 1, f[k] % (nv + 1) + 1);
    }
    xup.push_back(g);
  }
  for (int i = 0; i < mu; ++i) {
    for (int j = 0; j < mv; ++j) {
      if (i >= 1 && i <= nu && j >= 1 && j <= nv) {
        continue;
      }
      int q0 = xid(i, j), q1 = xid(i + 1, j), q2 = xid(i + 1, j + 1), q3 = xid(i, j + 1);
      xup.push_back({q0, q1, q2});
      xup.push_back({q0, q2, q3});
    }
  }
  r.closed.f = xup;
  for (auto f : xup) {
    r.closed.f.push_back({f[0] + mp, f[2] + mp, f[1] + mp});
  }
  // Points of a slab's border where top and bottom coincide would make the walls degenerate: weld by skipping them.
  auto wall = [&](int a, int b) {  // a -> b is a border half-edge of the top sheet
    bool da = r.closed.p[a] == r.closed.p[a + mp], db = r.closed.p[b] == r.closed.p[b + mp];
    if (!da) {
      r.closed.f.push_back({b, a, a + mp});
    }
    if (!db) {
      r.closed.f.push_back({b, da ? a : a + mp, b + mp});
    }
  };
  for (int i = 0; i < mu; ++i) {
    wall(xid(i, 0), xid(i + 1, 0));
    wall(xid(i + 1, mv), xid(i, mv));
  }
  for (int j = 0; j < mv; ++j) {
    wall(xid(mu, j), xid(mu, j + 1));
    wall(xid(0, j + 1), xid(0, j));
  }
  r.what = bottom ? "slab" : "sheet";
  return r;
}

struct Clipped_pair {
  Box box;
  Clipped a, b;
  std::string relation;
};

inline Clipped_pair gen_clipped_pair(Source& s, bool big) {
  Clipped_pair r;
  for (auto& x : r.box.n) {
    x = int(s.range(1, big ? 4 : 3));
  }
  auto heights = [&](int ax, double lo, double hi, const Heights* near) {
    int u = (ax + 1) % 3, v = (ax + 2) % 3;
    Heights h;
    auto flat = s.chance(1, 3);
    double base = lo + (hi - lo) * double(s.range(1, 7)) / 8;
    for (int i = 0; i < (r.box.n[u] + 1) * (r.box.n[v] + 1); ++i) {
      if (near && !s.chance(1, 3)) {
        h.push_back((*near)[i]);
      } else if (s.chance(1, 4) && std::floor(hi) - std::ceil(lo) >= 2) {  // at a plane of the box's grid
        h.push_back(double(s.range(std::int64_t(std::ceil(lo)) + 1, std::int64_t(std::floor(hi)) - 1)));
      } else {
        h.push_back(flat ? base : lo + (hi - lo) * double(s.range(1, 7)) / 8);
      }
    }
    return h;
  };
  int ax_a = int(s.below(3));
  Heights top_a, bot_a;
  int diag_a = int(s.below(3));
  auto clipped = [&](int ax, int diagonal, Heights& top, Heights& bot, const Heights* near) {
    double H = r.box.n[ax];
    if (s.chance(1, 3)) {
      top = heights(ax, H / 2, H, nullptr);
      bot = heights(ax, 0, H / 2, nullptr);
      if (s.chance(1, 3)) {  // top and bottom meet along a side of the box
        int nv = r.box.n[(ax + 2) % 3];
        for (int j = 0; j <= nv; ++j) {
          bot[j] = top[j];
        }
      }
      return sheets(s, r.box, ax, top, &bot, diagonal);
    }
    top = heights(ax, 0, H, near);
    return sheets(s, r.box, ax, top, nullptr, diagonal);
  };
  r.a = clipped(ax_a, diag_a, top_a, bot_a, nullptr);
  auto k = s.weighted({4, 4, 3, 3});
  if (k == 0) {  // over another side of the box: they cross
    int ax = (ax_a + 1 + int(s.below(2))) % 3;
    Heights t, b;
    r.b = clipped(ax, int(s.below(3)), t, b, nullptr);
    r.relation = r.a.what + " and crossing " + r.b.what;
  } else if (k == 1) {  // over the same side, with common points, edges and faces
    Heights t, b;
    r.b = clipped(ax_a, s.flip() ? diag_a : int(s.below(3)), t, b, &top_a);
    r.relation = r.a.what + " and " + r.b.what + " over the same side";
  } else if (k == 3) {  // a closed solid of the box's grid: it may fill the box or touch its sides
    Grid g;
    for (int i = 0; i < 3; ++i) {
      for (int x = 0; x <= r.box.n[i]; ++x) {
        g.c[i].push_back(x);
      }
    }
    Cells cells;
    if (s.flip()) {
      cells = gen_cells(s, g);
    } else {
      for (int x = 0; x < r.box.n[0]; ++x) {
        for (int y = 0; y < r.box.n[1]; ++y) {
          for (int z = 0; z < r.box.n[2]; ++z) {
            cells.insert({x, y, z});
          }
        }
      }
    }
    Voxel_style st;
    st.diagonal = int(s.below(3));
    r.b.open = r.b.closed = voxel_mesh(s, g, cells, st);
    r.b.what = "grid solid";
    r.relation = r.a.what + " and grid solid";
  } else {  // a closed solid strictly inside the box
    M m = solid(s, false);
    CGAL::Bbox_3 bb;
    for (const auto& p : m.p) {
      bb += p.approx().bbox();
    }
    double e = std::max({bb.xmax() - bb.xmin(), bb.ymax() - bb.ymin(), bb.zmax() - bb.zmin()});
    double sz = std::min({r.box.n[0], r.box.n[1], r.box.n[2]}) * 0.9375;
    double f = std::exp2(std::floor(std::log2(sz / e)));
    auto at = [&](int ax, double lo, double hi) {
      double room = r.box.n[ax] - (hi - lo) * f;
      return room * double(s.range(1, 15)) / 16 - lo * f;
    };
    double x = at(0, bb.xmin(), bb.xmax()), y = at(1, bb.ymin(), bb.ymax()), z = at(2, bb.zmin(), bb.zmax());
    m = translated(scaled(m, f), x, y, z);
    r.b.open = r.b.closed = m;
    r.b.what = "closed solid";
    r.relation = r.a.what + " and closed solid";
  }
  for (auto* c : {&r.a, &r.b}) {
    if (s.chance(1, 3)) {
      c->open = inverted(c->open);
      c->closed = inverted(c->closed);
    }
  }
  if (s.chance(1, 4)) {
    std::swap(r.a, r.b);
  }
  return r;
}

// ---------------------------------------------------------------------------------------------------------------------
// Solids clipped by an arbitrary convex region, given as half-spaces n . p <= d.

struct Half_space {
  std::array<FT, 3> n;
  FT d;
  FT at(const P3& p) const { return n[0] * p.x() + n[1] * p.y() + n[2] * p.z() - d; }  // negative inside
};
using Convex = std::vector<Half_space>;

struct Clip_result {
  M m;
  std::size_t cut{};      // faces that were cut
  std::size_t dropped{};  // faces left out because they lie on the boundary of the region
};

inline Clip_result clip(const M& m, const Convex& c) {
  Clip_result r;
  std::map<std::array<FT, 3>, int> ids;
  auto id = [&](const P3& p) {
    auto [it, fresh] = ids.emplace(std::array<FT, 3>{p.x(), p.y(), p.z()}, 0);
    if (fresh) {
      it->second = add_point(r.m, p);
    }
    return it->second;
  };
  for (const auto& f : m.f) {
    std::vector<P3> poly{m.p[f[0]], m.p[f[1]], m.p[f[2]]};
    bool on = false, cut = false;
    for (const auto& h : c) {
      std::vector<FT> v;
      bool all_on = true;
      for (const auto& p : poly) {
        v.push_back(h.at(p));
        all_on = all_on && v.back() == 0;
      }
      if (all_on) {
        on = true;
        continue;
      }
      std::vector<P3> out;
      for (std::size_t i = 0; i < poly.size(); ++i) {
        auto j = (i + 1) % poly.size();
        if (v[i] <= 0) {
          out.push_back(poly[i]);
        } else {
          cut = true;
        }
        if ((v[i] < 0 && v[j] > 0) || (v[i] > 0 && v[j] < 0)) {
          const auto &a = poly[i], &b = poly[j];
          FT t = v[i] / (v[i] - v[j]);
          P3 x{a.x() + t * (b.x() - a.x()), a.y() + t * (b.y() - a.y()), a.z() + t * (b.z() - a.z())};
          out.push_back(x);
        }
      }
      poly = std::move(out);
      if (poly.size() < 3) {
        break;
      }
    }
    if (poly.size() < 3) {
      continue;
    }
    if (on) {
      ++r.dropped;
      continue;
    }
    r.cut += cut ? 1 : 0;
    std::vector<int> q;
    for (const auto& p : poly) {
      q.push_back(id(P3{FT{p.x().exact()}, FT{p.y().exact()}, FT{p.z().exact()}}));
    }
    for (std::size_t i = 1; i + 1 < q.size(); ++i) {
      r.m.f.push_back({q[0], q[i], q[i + 1]});
    }
  }
  return r;
}

inline Half_space through(const P3& a, const P3& b, const P3& c) {
  auto n = CGAL::cross_product(b - a, c - a);
  return {{n.x(), n.y(), n.z()}, n.x() * a.x() + n.y() * a.y() + n.z() * a.z()};
}

// A convex region that cuts m: planes through vertices, edges or faces of it, along the axes, or in general position. If
// `keep` is given, it stays inside; a plane may just touch it.
inline Convex gen_convex(Source& s, const M& m, const M* keep) {
  Convex c;
  auto vert = [&] { return m.p[m.f[s.below(m.f.size())][s.below(3)]]; };
  auto mid = [&] {
    const auto& f = m.f[s.below(m.f.size())];
    const auto &x = m.p[f[0]], &y = m.p[f[1]], &z = m.p[f[2]];
    int a = int(s.range(0, 4)), b = int(s.range(0, 4 - a)), k = 4 - a - b;
    auto co = [&](int i) { return (FT{a} * x[i] + FT{b} * y[i] + FT{k} * z[i]) / FT{4}; };
    return P3{co(0), co(1), co(2)};
  };
  auto count = s.weighted({4, 4, 3, 2, 2}) + 1;
  if (s.chance(1, 4)) {
    count += 3;
  }
  for (std::size_t k = 0; k < count; ++k) {
    Half_space h;
    switch (s.weighted({3, 3, 4, 1})) {
      case 0: {  // along an axis
        auto ax = s.below(3);
        h.n[ax] = FT{s.flip() ? 1 : -1};
        break;
      }
      case 1: {
        for (auto& x : h.n) {
          x = FT{int(s.around(3))};
        }
        break;
      }
      case 2: {  // through vertices or points of faces
        auto p = s.flip() ? vert() : mid();
        h = through(p, s.flip() ? vert() : mid(), s.flip() ? vert() : mid());
        break;
      }
      default: {  // through a face
        const auto& f = m.f[s.below(m.f.size())];
        h = through(m.p[f[0]], m.p[f[1]], m.p[f[2]]);
      }
    }
    if (h.n[0] == 0 && h.n[1] == 0 && h.n[2] == 0) {
      continue;
    }
    if (s.flip()) {
      for (auto& x : h.n) {
        x = -x;
      }
    }
    auto p = s.flip() ? vert() : mid();
    h.d = h.n[0] * p.x() + h.n[1] * p.y() + h.n[2] * p.z();
    if (keep) {
      bool first = true;
      FT lo, hi;
      for (const auto& f : keep->f) {
        for (int v : f) {
          const auto& q = keep->p[v];
          FT x = h.n[0] * q.x() + h.n[1] * q.y() + h.n[2] * q.z();
          lo = first || x < lo ? x : lo;
          hi = first || x > hi ? x : hi;
          first = false;
        }
      }
      if (h.d < hi) {
        h.d = s.flip() ? hi : hi + (hi - lo) / FT{8};
      }
    }
    h.d = FT{h.d.exact()};
    for (auto& x : h.n) {
      x = FT{x.exact()};
    }
    c.push_back(h);
    if (clip(m, c).m.f.empty()) {
      c.pop_back();
      if (!keep) {  // the other side of the plane
        for (auto& x : h.n) {
          x = -x;
        }
        h.d = -h.d;
        c.push_back(h);
      }
    }
  }
  return c;
}

}  // namespace gen
