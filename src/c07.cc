// C07: point location is exact everywhere.
#include "boolean_oracle.h"
#include "terrain.h"

using namespace oracle;

namespace {

// Puts points that deserve to be asked into the list.
gen::M make_mesh(pbt::Case& c, std::vector<P3>& special) {
  auto& s = c.src;
  gen::M m;
  auto big = c.tier == "thorough" && s.chance(1, 3);
  switch (s.weighted({30, 12, 12, 1})) {
    case 0:
      m = gen::solid(s, big);
      break;
    case 1:
      m = gen::solid(s, big);
      gen::append(m, gen::translated(gen::solid(s, false), 16, double(s.around(2)), double(s.around(2))));
      break;
    case 3:
      m = gen::interlocked_sticks(s);
      special.push_back(P3{0, 0, 0});
      break;
    default:
      m = gen::refined(s, gen::solid(s, false), int(s.range(1, 4)));
      break;
  }
  if (s.chance(1, 3)) {
    m = gen::inverted(m);
  }
  auto t = gen::gen_affine(s);
  if (t.name != "identity") {
    m = gen::plain(gen::mapped(m, t));
    gen::M x;
    x.p = special;
    special = gen::mapped(x, t).p;
  }
  if (s.chance(1, 3)) {
    m = gen::relabelled(s, m);
  }
  return m;
}

// A point in a position relative to the mesh that is likely to matter.
P3 make_point(pbt::Source& s, const gen::M& m, const Geo& g, const std::vector<P3>& special, std::string& cls) {
  if (!special.empty() && s.chance(1, 4)) {
    cls = "all centroids behind edges";
    return special[s.below(special.size())];
  }
  auto face = [&] { return m.f[s.below(m.f.size())]; };
  auto f = face();
  const auto &p = m.p[f[0]], &q = m.p[f[1]], &r = m.p[f[2]];
  auto on_face = [&] { return bary(p, q, r, int(s.range(1, 5)), int(s.range(1, 5)), int(s.range(1, 5))); };
  auto mul = [&](const P3& x, const Vec& v, int num, int den) { return x + v * (FT{num} / FT{den}); };
  const auto& bb = g.bbox();
  switch (s.weighted({3, 3, 3, 3, 3, 4, 3, 3, 2, 2})) {
    case 0:
      cls = "vertex";
      return m.p[f[s.below(3)]];
    case 1: {
      cls = "edge";
      auto k = s.below(3);
      return mul(m.p[f[k]], m.p[f[(k + 1) % 3]] - m.p[f[k]], int(s.range(1, 6)), 7);
    }
    case 2:
      cls = "face";
      return on_face();
    case 3:
      cls = "face centroid";
      return bary(p, q, r, 1, 1, 1);
    case 4: {
      // On the line through a vertex and a face centroid: the first ray tried may pass through the vertex.
      cls = "aligned with a vertex and a centroid";
      auto f2 = s.flip() ? m.f[0] : face();
      auto ctr = bary(m.p[f2[0]], m.p[f2[1]], m.p[f2[2]], 1, 1, 1);
      auto v = m.p[f[s.below(3)]];
      return mul(v, v - ctr, int(s.range(1, 4)), int(s.range(1, 3)));
    }
    case 5: {
      // On the line through a point of an edge and a face centroid.
      cls = "aligned with an edge and a centroid";
      auto f2 = s.flip() ? m.f[0] : face();
      auto ctr = bary(m.p[f2[0]], m.p[f2[1]], m.p[f2[2]], 1, 1, 1);
      auto k = s.below(3);
      auto e = mul(m.p[f[k]], m.p[f[(k + 1) % 3]] - m.p[f[k]], int(s.range(1, 3)), 4);
      return mul(e, e - ctr, int(s.range(-3, 4)), 4);
    }
    case 6: {
      cls = "in the plane of a face";
      return mul(mul(p, q - p, int(s.around(6)), 4), r - p, int(s.around(6)), 4);
    }
    case 7: {
      // Just off the surface.
      cls = "very near the surface";
      auto n = CGAL::cross_product(q - p, r - p);
      FT eps = FT{CGAL::Exact_rational{1}} / (FT{std::ldexp(1.0, int(s.range(20, 120)))});
      auto x = s.flip() ? on_face() : mul(p, q - p, int(s.range(1, 6)), 7);
      return x + n * (s.flip() ? eps : -eps);
    }
    case 8: {
      cls = "far away";
      auto far = [&] { return FT{std::ldexp(double(s.around(3)), int(s.range(3, 60)))}; };
      return P3{far(), far(), far()};
    }
    default: {
      cls = "in the bounding box";
      auto co = [&](double lo, double hi) {
        return s.flip() ? FT{lo + (hi - lo) * (double(s.below(1200)) - 100) / 1000} : FT{lo} + (FT{hi} - FT{lo}) * FT{int(s.below(5))} / FT{4};
      };
      return P3{co(bb.xmin(), bb.xmax()), co(bb.ymin(), bb.ymax()), co(bb.zmin(), bb.zmax())};
    }
  }
}

CGAL::Bounded_side expected(const Geo& g, const P3& p) {
  if (!g.containing(p).empty()) {
    return CGAL::ON_BOUNDARY;
  }
  auto i = g.inside(p);
  if (!i) {
    throw std::runtime_error("oracle: not a region");
  }
  return *i ? CGAL::ON_BOUNDED_SIDE : CGAL::ON_UNBOUNDED_SIDE;
}

}  // namespace

PBT_SUB(queries, 7000, 160000,
        "a valid closed mesh (voxel, star, nested, tetrahedral, interlocked sticks, several components, complements, refined, relabelled, exactly "
        "mapped) and 24 points on vertices, edges, faces and centroids, in the planes of faces, aligned with vertices or edges and "
        "centroids, within 2^-120 of the surface, where edges hide the centroids of all faces, far away or at random, decided by exact incidence and winding number; "
        "non-trivial: at least one point of each answer was asked") {
  auto& s = c.src;
  std::vector<P3> special;
  auto m = make_mesh(c, special);
  if (auto v = validity(m); !v.empty()) {
    c.label("DISCARDED generator");
    throw pbt::Discard{};
  }
  c.describe(gen::show(m));
  Geo g{m};
  Region r = gen::to_region(m);
  std::set<int> answers;
  std::vector<std::pair<P3, CGAL::Bounded_side>> asked;
  for (int i = 0; i < 24; ++i) {
    std::string cls;
    auto p = make_point(s, m, g, special, cls);
    auto want = expected(g, p);
    auto got = r.bounded_side(p);
    if (got != want) {
      c.describe("point " + gen::fmt(p) + "\n");
      pbt::fail("side", "the point " + gen::fmt(p) + " (" + cls + ") is reported " + side_name(got) + " but is " + side_name(want));
    }
    answers.insert(int(want));
    c.label(cls + ": " + side_name(want));
    asked.emplace_back(p, want);
  }
  // Repeated, in another order, by a copy, and by several threads at once.
  s.shuffle(asked);
  Region copy{r};
  for (const auto& [p, want] : asked) {
    if (r.bounded_side(p) != want || copy.bounded_side(p) != want) {
      pbt::fail("repeat", "asking again about " + gen::fmt(p) + " gives another answer");
    }
  }
  if (s.chance(1, 8)) {
    Region shared = gen::to_region(m);
    std::atomic<int> bad{-1};
    std::vector<std::thread> ts;
    for (int t = 0; t < 3; ++t) {
      ts.emplace_back([&, t] {
        try {
          for (std::size_t i = 0; i < asked.size(); ++i) {
            auto k = (i + std::size_t(t) * 7) % asked.size();
            if (shared.bounded_side(asked[k].first) != asked[k].second) {
              bad = int(k);
            }
          }
        } catch (...) {
          bad = 0;
        }
      });
    }
    for (auto& t : ts) {
      t.join();
    }
    if (bad >= 0) {
      pbt::fail("concurrent", "asking from several threads gives another answer for " + gen::fmt(asked[bad].first));
    }
    c.label("concurrent queries");
  }
  c.nontrivial = answers.size() == 3;
  c.evals(asked.size() * 3);
}

PBT_SUB(terrains, 300, 5000,
        "a closed mesh of 1000 to 150000 faces (under or over a terrain, or its complement) and 200 points on its vertices, edges, faces and "
        "centroids, straight above and below vertices, and around it, decided exactly or at a distance from the surface; non-trivial: always") {
  auto& s = c.src;
  int n = int(s.one_of<std::int64_t>({s.range(10, 40), s.range(40, 100), c.tier == "thorough" ? s.range(100, 190) : s.range(40, 130)}));
  auto t = gen_terrain(s, n, s.one_of({0.0, 0.03, 1.0}), s.one_of({0.0, 1.5, 6.0}), s.flip());
  auto m = t.mesh();
  bool complement = s.chance(1, 3);
  if (complement) {
    m = gen::inverted(m);
  }
  std::uint64_t seed = s.below(1 << 16);
  if (seed != 0) {
    for (std::size_t i = 0; i + 1 < m.f.size(); ++i) {
      std::swap(m.f[i], m.f[i + pbt::splitmix(seed) % (m.f.size() - i)]);
    }
  }
  c.describe("a terrain of " + std::to_string(n) + " cells a side" + (t.above ? ", above" : ", below") + (complement ? ", complemented" : "") + "\n");
  c.label(m.f.size() > 65536 ? "more than 65536 faces" : m.f.size() > 10000 ? "more than 10000 faces" : "smaller");
  c.nontrivial = true;
  Region r = gen::to_region(m);
  auto ask = [&](const P3& p, CGAL::Bounded_side want, const char* cls) {
    auto got = r.bounded_side(p);
    c.evals(1);
    if (got != want) {
      pbt::fail("side", "the point " + gen::fmt(p) + " (" + cls + ") is reported " + side_name(got) + " but is " + side_name(want));
    }
  };
  for (int k = 0; k < 100; ++k) {
    const auto& f = m.f[pbt::splitmix(seed) % m.f.size()];
    const auto &p = m.p[f[0]], &q = m.p[f[1]], &u = m.p[f[2]];
    switch (k % 4) {
      case 0:
        ask(p, CGAL::ON_BOUNDARY, "vertex");
        break;
      case 1:
        ask(bary(p, q, u, 1, 1, 1), CGAL::ON_BOUNDARY, "face centroid");
        break;
      case 2:
        ask(bary(p, q, u, 1, 4, 2), CGAL::ON_BOUNDARY, "face");
        break;
      default:
        ask(CGAL::midpoint(p, q), CGAL::ON_BOUNDARY, "edge");
        break;
    }
  }
  for (int k = 0; k < 100; ++k) {
    auto i = int(pbt::splitmix(seed) % std::uint64_t(n + 1)), j = int(pbt::splitmix(seed) % std::uint64_t(n + 1));
    double dz = std::ldexp(double(1 + pbt::splitmix(seed) % 7), -int(pbt::splitmix(seed) % 20)) * (pbt::splitmix(seed) % 2 != 0 ? 1 : -1);
    std::array<double, 3> p{double(i), double(j), t.at(i, j) + dz};
    if (k % 3 == 0) {
      p = {double(i) * 1.25 - n / 8.0 + 0.0625, double(j) * 1.25 - n / 8.0 + 0.15625, dz * 8};
    }
    double d = t.inside({p[0], p[1], p[2]});
    if (std::fabs(d) < 1e-9) {
      continue;
    }
    ask(P3{p[0], p[1], p[2]}, (d > 0) != complement ? CGAL::ON_BOUNDED_SIDE : CGAL::ON_UNBOUNDED_SIDE, k % 3 == 0 ? "anywhere" : "above or below a vertex");
  }
}

int main(int argc, char** argv) {
  pbt::Engine e;
  return e.main(argc, argv);
}
