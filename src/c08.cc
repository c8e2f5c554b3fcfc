// C08: warnings are raised exactly by partial intersections and name the right mesh.
#include "clipped_common.h"
#include "terrains.h"

namespace {

std::string show_w(Warnings w) {
  std::string s;
  if ((w & Warnings::FIRST_MESH_PARTIALLY_INTERSECTS_WITH_SECOND_MESH) != Warnings::NONE) {
    s += " first-partially-cut";
  }
  if ((w & Warnings::SECOND_MESH_PARTIALLY_INTERSECTS_WITH_FIRST_MESH) != Warnings::NONE) {
    s += " second-partially-cut";
  }
  return s.empty() ? " none" : s;
}

// Border edges of a mesh (edges with one face).
std::vector<std::array<int, 2>> border(const gen::M& m) {
  std::map<std::pair<int, int>, int> n;
  for (const auto& f : m.f) {
    for (int k = 0; k < 3; ++k) {
      ++n[std::minmax(f[k], f[(k + 1) % 3])];
    }
  }
  std::vector<std::array<int, 2>> r;
  for (const auto& [e, c] : n) {
    if (c == 1) {
      r.push_back({e.first, e.second});
    }
  }
  return r;
}

// Whether a border edge of x pierces a face of y.  Throws Discard unless every such contact is in general position.
bool pierces(const gen::M& x, const gen::M& y) {
  bool any = false;
  for (auto e : border(x)) {
    const auto &p = x.p[e[0]], &q = x.p[e[1]];
    for (const auto& f : y.f) {
      const auto &a = y.p[f[0]], &b = y.p[f[1]], &c = y.p[f[2]];
      if (!CGAL::do_intersect(Segment{p, q}, Triangle{a, b, c})) {
        continue;
      }
      auto Z = CGAL::COPLANAR;
      if (CGAL::orientation(a, b, c, p) == Z || CGAL::orientation(a, b, c, q) == Z || CGAL::orientation(p, q, a, b) == Z ||
          CGAL::orientation(p, q, b, c) == Z || CGAL::orientation(p, q, c, a) == Z) {
        throw pbt::Discard{};
      }
      any = true;
    }
  }
  return any;
}

// Any contact that is not in general position (a vertex of one on a face of the other, an edge on an edge).
bool degenerate_contact(const gen::M& x, const gen::M& y) {
  for (const auto& f : x.f) {
    for (const auto& g : y.f) {
      Triangle t{x.p[f[0]], x.p[f[1]], x.p[f[2]]}, u{y.p[g[0]], y.p[g[1]], y.p[g[2]]};
      if (!CGAL::do_intersect(t, u)) {
        continue;
      }
      for (int k = 0; k < 3; ++k) {
        if (t.has_on(y.p[g[k]]) || u.has_on(x.p[f[k]])) {
          return true;
        }
        for (int l = 0; l < 3; ++l) {
          if (CGAL::do_intersect(Segment{x.p[f[k]], x.p[f[(k + 1) % 3]]}, Segment{y.p[g[l]], y.p[g[(l + 1) % 3]]})) {
            return true;
          }
        }
      }
    }
  }
  return false;
}

double odd(pbt::Source& s, double range) {
  // Multiples of 1/1009 are never at the solids' dyadic coordinates.
  return double(s.around(int(range * 1009))) / 1009;
}

// A disc: a convex polygon in a random plane, or a small height field.
gen::M disc(pbt::Source& s, double size) {
  gen::M m;
  std::array<double, 3> o{odd(s, 1.5), odd(s, 1.5), odd(s, 1.5)}, u{}, v{};
  for (auto* w : {&u, &v}) {
    for (auto& x : *w) {
      x = odd(s, 1);
    }
  }
  auto at = [&](double x, double y, double h) {
    return P3{o[0] + size * (x * u[0] + y * v[0]) + h, o[1] + size * (x * u[1] + y * v[1]), o[2] + size * (x * u[2] + y * v[2])};
  };
  switch (s.weighted({3, 3, 3})) {
    case 0:
      m.p = {at(0, 0, 0), at(1, 0, 0), at(0, 1, 0)};
      m.f = {{0, 1, 2}};
      break;
    case 1: {
      static const std::array<std::array<double, 2>, 6> hex{{{1, 0}, {0.5, 1}, {-0.5, 1}, {-1, 0}, {-0.5, -1}, {0.5, -1}}};
      int c = gen::add_point(m, at(0, 0, 0));
      for (const auto& h : hex) {
        gen::add_point(m, at(h[0], h[1], 0));
      }
      for (int i = 0; i < 6; ++i) {
        m.f.push_back({c, 1 + i, 1 + (i + 1) % 6});
      }
      break;
    }
    default: {
      int n = int(s.range(1, 3)), k = int(s.range(1, 3));
      for (int i = 0; i <= n; ++i) {
        for (int j = 0; j <= k; ++j) {
          gen::add_point(m, at(double(i) / n, double(j) / k, odd(s, 0.125)));
        }
      }
      auto id = [&](int i, int j) { return i * (k + 1) + j; };
      for (int i = 0; i < n; ++i) {
        for (int j = 0; j < k; ++j) {
          m.f.push_back({id(i, j), id(i + 1, j), id(i + 1, j + 1)});
          m.f.push_back({id(i, j), id(i + 1, j + 1), id(i, j + 1)});
        }
      }
      break;
    }
  }
  return m;
}

}  // namespace

PBT_SUB(partial, 6000, 100000,
        "a sphere-like closed solid or a disc, and a disc (convex polygon or height field), in general position: a mesh must be "
        "reported as partially cut exactly when a border edge of the other mesh pierces it, and exchanging the operands must "
        "exchange the warnings; non-trivial: the surfaces meet") {
  auto& s = c.src;
  gen::M a, b;
  bool closed = !s.chance(1, 3);
  if (closed) {
    a = s.flip() ? gen::star_solid(s, false) : gen::tetra_solid(s);
    if (s.chance(1, 3)) {
      a = gen::inverted(a);
    }
  } else {
    a = disc(s, 2);
  }
  b = disc(s, s.one_of({1.0, 3.0, 8.0, 20.0}));
  if (s.chance(1, 3)) {
    a = gen::relabelled(s, a, {false, true});
    b = gen::relabelled(s, b, {false, true});
  }
  Operand oa{a}, ob{b};
  c.describe(describe_pair(oa, ob));
  if (!validity(a, closed).empty() || !validity(b, false).empty() || degenerate_contact(a, b)) {
    throw pbt::Discard{};
  }
  bool meet = surfaces_meet(oa, ob);
  bool first = pierces(b, a), second = pierces(a, b);
  c.nontrivial = meet;
  c.label(std::string{closed ? "solid" : "disc"} + " and disc: " + (meet ? (first ? "first" : "") + std::string{second ? "second" : ""} + " cut" : "apart"));
  Warnings want = (first ? Warnings::FIRST_MESH_PARTIALLY_INTERSECTS_WITH_SECOND_MESH : Warnings::NONE) |
                  (second ? Warnings::SECOND_MESH_PARTIALLY_INTERSECTS_WITH_FIRST_MESH : Warnings::NONE);
  Warnings swapped = (second ? Warnings::FIRST_MESH_PARTIALLY_INTERSECTS_WITH_SECOND_MESH : Warnings::NONE) |
                     (first ? Warnings::SECOND_MESH_PARTIALLY_INTERSECTS_WITH_FIRST_MESH : Warnings::NONE);
  auto w = Builder{oa.region(), ob.region()}.warnings();
  if (w != want) {
    pbt::fail("warning", "reported:" + show_w(w) + "; expected:" + show_w(want));
  }
  auto x = Builder{ob.region(), oa.region()}.warnings();
  if (x != swapped) {
    pbt::fail("warning", "exchanged operands: reported:" + show_w(x) + "; expected:" + show_w(swapped));
  }
  c.evals(2);
}

PBT_SUB(valid_closed, 3000, 40000,
        "valid closed pairs as for C01: no warning in either order; non-trivial: the surfaces meet") {
  auto p = make_pair(c);
  auto w = Builder{p.a.region(), p.b.region()}.warnings();
  auto x = Builder{p.b.region(), p.a.region()}.warnings();
  if (w != Warnings::NONE || x != Warnings::NONE) {
    pbt::fail("warning", "reported for valid closed operands:" + show_w(w) + " and exchanged:" + show_w(x));
  }
  c.evals(2);
}

PBT_SUB(valid_clipped, 3000, 40000,
        "open meshes clipped by a common box or by half-spaces as for C05: no warning in either order; non-trivial: the surfaces "
        "meet") {
  auto& s = c.src;
  if (s.flip()) {
    auto p = make_clipped_case(c);
    auto w = Builder{p.oa.region(), p.ob.region()}.warnings();
    auto x = Builder{p.ob.region(), p.oa.region()}.warnings();
    if (w != Warnings::NONE || x != Warnings::NONE) {
      pbt::fail("warning", "reported for meshes clipped by half-spaces:" + show_w(w) + " and exchanged:" + show_w(x));
    }
    c.evals(2);
    return;
  }
  auto p = gen::gen_clipped_pair(s, false);
  Operand a{p.a.open}, b{p.b.open};
  c.describe(p.relation + "\n" + describe_pair(a, b));
  if (!validity(p.a.open, false).empty() || !validity(p.b.open, false).empty()) {
    throw pbt::Discard{};
  }
  c.nontrivial = surfaces_meet(a, b);
  auto w = Builder{a.region(), b.region()}.warnings();
  auto x = Builder{b.region(), a.region()}.warnings();
  if (w != Warnings::NONE || x != Warnings::NONE) {
    pbt::fail("warning", "reported for meshes clipped by a common box:" + show_w(w) + " and exchanged:" + show_w(x));
  }
  c.evals(2);
}

PBT_SUB(terrains, 120, 2000,
        "a closed or open terrain of 1000 to 70000 faces with a smaller open terrain across it (partially cut exactly when the height of the "
        "smaller one's border relative to the larger one changes its sign, computed along the border), or two sheets over the same square, or two "
        "closed terrains (no warning); both orders; non-trivial: the smaller terrain's border or interior crosses the larger one") {
  auto& s = c.src;
  auto expect = [&](const gen::M& a, const gen::M& b, bool first) {
    auto w = Builder{gen::to_region(a), gen::to_region(b)}.warnings();
    auto want = first ? Warnings::FIRST_MESH_PARTIALLY_INTERSECTS_WITH_SECOND_MESH : Warnings::NONE;
    if (w != want) {
      pbt::fail("warning", "reported:" + show_w(w) + "; expected:" + show_w(want));
    }
    auto x = Builder{gen::to_region(b), gen::to_region(a)}.warnings();
    want = first ? Warnings::SECOND_MESH_PARTIALLY_INTERSECTS_WITH_FIRST_MESH : Warnings::NONE;
    if (x != want) {
      pbt::fail("warning", "exchanged operands: reported:" + show_w(x) + "; expected:" + show_w(want));
    }
    c.evals(2);
  };
  auto kind = s.weighted({3, 1, 1});
  if (kind == 1) {
    auto [a, b, ma, mb] = gen_sheets(c);
    c.label("sheets over the same square");
    c.nontrivial = true;
    expect(ma, mb, false);
    return;
  }
  if (kind == 2) {
    auto [a, b, ma, mb] = gen_terrains(c, 80);
    c.label("closed");
    c.nontrivial = true;
    expect(ma, mb, false);
    return;
  }
  int n = int(s.one_of<std::int64_t>({s.range(10, 40), s.range(40, c.tier == "thorough" ? 130 : 80)}));
  auto a = gen_terrain(s, n, s.one_of({0.0, 0.03, 0.2, 1.0}), s.one_of({0.0, 1.5, 6.0}), s.flip());
  int nb = int(s.range(1, n - 2));
  auto b = gen_terrain(s, nb, s.one_of({0.0, 0.2}), s.one_of({0.0, 0.5, 2.0}), s.flip());
  b.x0 = double(s.range(0, n - nb - 1)) + 0.328125;
  b.y0 = double(s.range(0, n - nb - 1)) + 0.609375;
  // The border is below, above or across; sometimes only a little of it.
  double lift = s.one_of({0.0, -1.0, 3.0, 9.0, -9.0}) + 1.0 / 16384;
  bool frame = s.chance(1, 3);  // the border far above
  for (int j = 0; j <= nb; ++j) {
    for (int i = 0; i <= nb; ++i) {
      auto& z = b.h[std::size_t(j) * std::size_t(nb + 1) + std::size_t(i)];
      bool edge = i == 0 || j == 0 || i == nb || j == nb;
      z = frame && edge ? 20 + 1.0 / 16384 : z + lift;
    }
  }
  if (frame && s.flip()) {  // except at one place
    int i = int(s.range(0, nb));
    b.h[std::size_t(i)] = -20;
  }
  bool below = false, above = false;
  auto look = [&](double x, double y) {
    double d = b.height(x, y) - a.height(x, y);
    if (std::fabs(d) < 1e-7) {
      throw pbt::Discard{};  // not in general position
    }
    (d < 0 ? below : above) = true;
  };
  // The relative height along the border is linear between these points.
  for (int k = 0; k < 2; ++k) {
    double p0 = k == 0 ? b.x0 : b.y0, q0 = k == 0 ? b.y0 : b.x0;
    for (double q : {q0, q0 + nb}) {
      std::vector<double> at;
      double fq = q - std::floor(q);
      for (int i = 0; i <= nb; ++i) {
        at.push_back(p0 + i);
        double x = std::floor(p0) + 1 + i;
        for (double z : {x, x - 1 + fq}) {  // lines of the larger grid, and its diagonals
          if (z > p0 && z < p0 + nb) {
            at.push_back(z);
          }
        }
      }
      for (double z : at) {
        k == 0 ? look(z, q) : look(q, z);
      }
    }
  }
  auto ma = s.flip() ? a.sheet() : a.mesh(), mb = b.sheet();
  set_data(ma, 0);
  set_data(mb, kSecond);
  auto order = s.below(1 << 16);
  if (order != 0) {
    shuffle(ma, order);
    shuffle(mb, order + 1);
  }
  c.describe("a terrain of " + std::to_string(n) + " cells a side (" + std::to_string(ma.f.size()) + " faces) and an open one of " + std::to_string(nb) +
             " at " + std::to_string(b.x0) + " " + std::to_string(b.y0) + ", lift " + std::to_string(lift) + (frame ? ", with a high border" : "") + "\n");
  label_size(c, ma.f.size());
  c.label(below && above ? "partially cut" : "not partially cut");
  c.nontrivial = (below && above) || frame;
  expect(ma, mb, below && above);
}

int main(int argc, char** argv) {
  pbt::Engine e;
  return e.main(argc, argv);
}
