// C19: the symbolic intersection of two triangles is exact, complete and symmetric.
#include <kigumi/Face_face_intersection.h>
#include <kigumi/Intersection_point_inserter.h>
#include <kigumi/Point_list.h>

#include <numeric>

#include "oracle.h"

using namespace oracle;

namespace {

using Q = CGAL::Exact_rational;
using Inter = kigumi::Face_face_intersection<K>;
using Inserter = kigumi::Intersection_point_inserter<K>;
using List = kigumi::Point_list<K>;
using R = kigumi::Triangle_region;

using V = std::array<Q, 3>;
V operator-(const V& a, const V& b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
V cross(const V& a, const V& b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
Q dot(const V& a, const V& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
int sgn(const Q& x) { return x < 0 ? -1 : x > 0 ? 1 : 0; }
bool zero(const V& a) { return a[0] == 0 && a[1] == 0 && a[2] == 0; }
V vec(const P3& p) {
  const auto& e = p.exact();
  return {e.x(), e.y(), e.z()};
}
P3 point(const V& v) { return P3{FT{v[0]}, FT{v[1]}, FT{v[2]}}; }

using Tri = std::array<V, 3>;

// The part of a convex polygon (1 to n points, in order) in the closed half space n.x >= d.
std::vector<V> clip(const std::vector<V>& poly, const V& n, const V& o) {
  std::vector<V> r;
  auto k = poly.size();
  for (std::size_t i = 0; i < k; ++i) {
    const auto &a = poly[i], &b = poly[(i + 1) % k];
    auto da = dot(n, a - o), db = dot(n, b - o);
    if (da >= 0) {
      r.push_back(a);
    }
    if (sgn(da) * sgn(db) < 0) {
      auto t = da / (da - db);
      r.push_back({a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1]), a[2] + t * (b[2] - a[2])});
    }
  }
  return r;
}

// The extreme points of the intersection of two closed triangles; in convex position order if there are three or more.
std::vector<V> common(const Tri& s, const Tri& t) {
  auto n = cross(t[1] - t[0], t[2] - t[0]);
  std::vector<V> p(s.begin(), s.end());
  V m{-n[0], -n[1], -n[2]};
  p = clip(p, n, t[0]);
  if (!p.empty()) {
    p = clip(p, m, t[0]);
  }
  for (int i = 0; i < 3 && !p.empty(); ++i) {
    p = clip(p, cross(n, t[(i + 1) % 3] - t[i]), t[i]);
  }
  // Remove duplicates and points that are not extreme.
  std::vector<V> u;
  for (const auto& x : p) {
    if (std::find(u.begin(), u.end(), x) == u.end()) {
      u.push_back(x);
    }
  }
  std::vector<V> r;
  for (const auto& x : u) {
    bool extreme = true;
    for (const auto& a : u) {
      for (const auto& b : u) {
        if (a != x && b != x && a != b && zero(cross(x - a, b - a)) && dot(x - a, b - x) > 0) {
          extreme = false;
        }
      }
    }
    if (extreme) {
      r.push_back(x);
    }
  }
  return r;
}

// The smallest vertex, edge or face of t that contains x, as a bit set of its corners.
int location(const Tri& t, const V& x) {
  auto n = cross(t[1] - t[0], t[2] - t[0]);
  int bits = 0;
  for (int i = 0; i < 3; ++i) {
    // Barycentric coordinate of corner i.
    auto w = dot(cross(t[(i + 2) % 3] - t[(i + 1) % 3], x - t[(i + 1) % 3]), n);
    if (sgn(w) < 0 || dot(n, x - t[0]) != 0) {
      throw std::runtime_error("oracle: the point is outside");
    }
    if (sgn(w) > 0) {
      bits |= 1 << i;
    }
  }
  return bits;
}

std::string show(const V& v) { return gen::fmt(point(v)); }
std::string show(const Tri& t) { return "(" + show(t[0]) + ") (" + show(t[1]) + ") (" + show(t[2]) + ")"; }
std::string region_name(int bits) {
  std::string r;
  for (int i = 0; i < 6; ++i) {
    if ((bits >> i & 1) != 0) {
      r += (i < 3 ? "L" : "R") + std::to_string(i % 3);
    }
  }
  return r;
}

// Checks one intersection; returns the number of points.
std::size_t check(const List& points, const Inter& f, Inserter* ins, const std::array<std::size_t, 3>& a,
                  const std::array<std::size_t, 3>& b, const Tri& s, const Tri& t, const std::vector<V>& want) {
  auto where = [&] { return show(s) + " and " + show(t); };
  auto got = f(a[0], a[1], a[2], b[0], b[1], b[2]);
  std::map<int, V> exp;
  for (const auto& x : want) {
    exp.emplace(location(s, x) | location(t, x) << 3, x);
  }
  std::set<int> seen;
  std::vector<V> order;
  for (auto r : got) {
    int bits = int(r);
    if (!seen.insert(bits).second) {
      pbt::fail("twice", where() + ": " + region_name(bits) + " is listed twice");
    }
    auto it = exp.find(bits);
    if (it == exp.end()) {
      std::string w;
      for (const auto& [k, x] : exp) {
        w += " " + region_name(k);
      }
      pbt::fail("wrong", where() + ": " + region_name(bits) + " is not an extreme point of the intersection, expected" + w);
    }
    order.push_back(it->second);
    if (ins != nullptr) {
      auto l = kigumi::intersection(r, R::LEFT_FACE), q = kigumi::intersection(r, R::RIGHT_FACE);
      auto id = ins->insert(l, a[0], a[1], a[2], q, b[0], b[1], b[2]);
      if (vec(points.at(id)) != it->second) {
        pbt::fail("point", where() + ": " + region_name(bits) + " was constructed as " + gen::fmt(points.at(id)) + ", not " +
                               show(it->second));
      }
    }
  }
  if (seen.size() != exp.size()) {
    for (const auto& [k, x] : exp) {
      if (seen.count(k) == 0) {
        pbt::fail("missing", where() + ": " + region_name(k) + " (" + show(x) + ") is missing");
      }
    }
  }
  if (order.size() > 3) {
    // Consecutive points are neighbours in convex position order.
    std::vector<std::size_t> pos;
    for (const auto& x : order) {
      pos.push_back(std::size_t(std::find(want.begin(), want.end(), x) - want.begin()));
    }
    auto n = pos.size();
    auto d = (pos[1] + n - pos[0]) % n;
    bool ok = d == 1 || d == n - 1;
    for (std::size_t i = 0; i < n; ++i) {
      ok = ok && (pos[(i + 1) % n] + n - pos[i]) % n == d;
    }
    if (!ok) {
      pbt::fail("order", where() + ": the points are not listed in convex position order");
    }
  }
  return want.size();
}

void count(pbt::Case& c, const Tri& s, const Tri& t, std::size_t n) {
  auto m = cross(s[1] - s[0], s[2] - s[0]);
  bool coplanar = dot(m, t[0] - s[0]) == 0 && dot(m, t[1] - s[0]) == 0 && dot(m, t[2] - s[0]) == 0;
  c.label(std::string{coplanar ? "coplanar, " : "transversal, "} + std::to_string(n) + " points");
  c.nontrivial = c.nontrivial || n > 0;
}

const std::array<std::array<int, 3>, 6> kOrders{{{0, 1, 2}, {1, 2, 0}, {2, 0, 1}, {0, 2, 1}, {2, 1, 0}, {1, 0, 2}}};

bool flat(const Tri& t) { return zero(cross(t[1] - t[0], t[2] - t[0])); }

// A point related to the triangles made so far.
V related(pbt::Source& s, const std::vector<V>& p, bool plane) {
  auto any = [&]() -> const V& { return p[s.below(p.size())]; };
  auto q = [&](std::initializer_list<int> l) { return Q{s.one_of(l)}; };
  auto comb = [&](const V& a, const V& b, const Q& t) { return V{a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1]), a[2] + t * (b[2] - a[2])}; };
  V x{Q{int(s.around(3))}, plane ? Q{0} : Q{int(s.around(3))}};
  if (p.empty()) {
    return x;
  }
  switch (s.weighted({3, 3, 4, 4, 2, 1})) {
    case 0:
      return x;
    case 1:
      return any();
    case 2:  // on the line through two points: between or beyond
    {
      const auto &a = any(), &b = any();
      auto n = q({1, 2, 3, -1, 4, -2, 6, 5});
      return comb(a, b, n / q({2, 3, 1, 4}));
    }
    case 3:  // in the plane of three points
    {
      const auto &a = any(), &b = any(), &d = any();
      auto u = q({1, 2, 3, -1, 0, -2, 4, 5}) / Q{4}, v = q({1, 2, 3, -1, 0, -2, 4, 5}) / Q{4};
      V r;
      for (int i = 0; i < 3; ++i) {
        r[i] = a[i] + u * (b[i] - a[i]) + v * (d[i] - a[i]);
      }
      return r;
    }
    case 4:  // just off a line or plane
    {
      auto r = comb(any(), any(), Q{1} / q({2, 3}));
      auto e = Q{1};
      for (int i = int(s.range(4, 60)); i > 0; --i) {
        e /= 2;
      }
      r[s.below(plane ? 2 : 3)] += s.flip() ? e : -e;
      return r;
    }
    default:  // plain doubles without a pattern
    {
      V r;
      for (auto& y : r) {
        y = Q{std::ldexp(double(s.below(1ULL << 53)), -52)};
      }
      if (plane) {
        r[2] = Q{0};
      }
      return r;
    }
  }
}

}  // namespace

PBT_SUB(related_triangles, 7000, 250000,
        "two to four triangles over up to 12 distinct points that share corners or have corners on, beyond or just off each other's "
        "corners, edges and planes (rationals, doubles, extreme scales), all pairs in all 72 orders of corners and operands with one intersection object and "
        "one point inserter; oracle: exact polygon clipping; non-trivial: some pair intersects") {
  auto& s = c.src;
  std::vector<V> p;
  List list;
  int nt = int(s.range(2, 4));
  std::vector<std::array<std::size_t, 3>> tris;
  bool plane = s.chance(1, 3);  // all in one plane
  for (int i = 0; i < nt; ++i) {
    std::array<std::size_t, 3> id{};
    Tri t;
    for (int k = 0; k < 3; ++k) {
      t[k] = related(s, p, plane);
      if (k == 1 && t[1] == t[0]) {
        t[1][0] += Q{1};
      }
      for (int e = 0; k == 2 && e < 3 && flat(t); ++e) {
        t[2][e] += Q{1};
        if (plane) {
          t[2][2] = Q{0};
        }
      }
      auto it = std::find(p.begin(), p.end(), t[k]);
      id[k] = std::size_t(it - p.begin());
      if (it == p.end()) {
        p.push_back(t[k]);
      }
    }
    if (!flat(t)) {
      tris.push_back(id);
    }
  }
  if (tris.size() < 2) {
    throw pbt::Discard{};
  }
  auto map = gen::gen_affine(s);
  c.describe(map.name + "\n");
  bool lazy = s.chance(1, 4);
  for (auto& x : p) {
    auto y = map(point(x));
    x = vec(y);
    if (lazy) {  // not known to be a double
      auto third = FT{1} / FT{3};
      y = P3{(FT{x[0]} + third) - third, (FT{x[1]} + third) - third, (FT{x[2]} + third) - third};
    } else {
      P3 d{CGAL::to_double(y.x()), CGAL::to_double(y.y()), CGAL::to_double(y.z())};
      if (d == y) {
        y = d;
      }
    }
    list.insert(y);
  }
  std::vector<Tri> tri;
  for (const auto& t : tris) {
    tri.push_back({p[t[0]], p[t[1]], p[t[2]]});
    c.describe(show(tri.back()) + "\n");
  }
  Inter f{list};
  Inserter ins{list};
  std::uint64_t k = 0;
  for (std::size_t i = 0; i < tris.size(); ++i) {
    for (std::size_t j = 0; j < i; ++j) {
      auto want = common(tri[i], tri[j]);
      count(c, tri[i], tri[j], want.size());
      for (const auto& oa : kOrders) {
        for (const auto& ob : kOrders) {
          std::array<std::size_t, 3> a{}, b{};
          Tri x, y;
          for (int m = 0; m < 3; ++m) {
            a[m] = tris[i][oa[m]];
            b[m] = tris[j][ob[m]];
            x[m] = tri[i][oa[m]];
            y[m] = tri[j][ob[m]];
          }
          check(list, f, &ins, a, b, x, y, want);
          check(list, f, &ins, b, a, y, x, want);
          k += 2;
        }
      }
    }
  }
  c.evals(k);
}

PBT_SUB(lattice_exhaustive, 2500, 40000,
        "one triangle over a small lattice (3x3 or 4x4 points of a plane, or the corners of a cube and its centre) against every triangle "
        "over the same lattice, in a random order of corners each; non-trivial: always") {
  auto& s = c.src;
  std::vector<V> p;
  auto l = s.weighted({3, 3, 2});
  if (l != 1) {
    int n = l == 0 ? 3 : 4;
    for (int i = 0; i < n * n; ++i) {
      p.push_back({Q{i % n}, Q{i / n}, Q{i % n - 2 * (i / n)}});
    }
    c.describe(l == 0 ? "3x3 " : "4x4 ");
  } else {
    for (int i = 0; i < 8; ++i) {
      p.push_back({Q{2 * (i & 1)}, Q{i & 2}, Q{(i & 4) / 2}});
    }
    p.push_back({Q{1}, Q{1}, Q{1}});
    c.describe("cube ");
  }
  List list;
  for (const auto& x : p) {
    list.insert(point(x));
  }
  std::array<std::size_t, 3> a{};
  std::vector<std::size_t> ids(p.size());
  std::iota(ids.begin(), ids.end(), 0);
  for (int k = 0; k < 3; ++k) {
    auto i = s.below(ids.size());
    a[k] = ids[i];
    ids.erase(ids.begin() + std::ptrdiff_t(i));
  }
  Tri x{p[a[0]], p[a[1]], p[a[2]]};
  if (flat(x)) {
    throw pbt::Discard{};
  }
  c.describe(show(x) + "\n");
  auto o = s.below(6);
  bool swap = s.flip();
  Inter f{list};
  Inserter ins{list};
  std::uint64_t n = 0;
  for (std::size_t i = 0; i < p.size(); ++i) {
    for (std::size_t j = i + 1; j < p.size(); ++j) {
      for (std::size_t k = j + 1; k < p.size(); ++k) {
        std::array<std::size_t, 3> q{i, j, k};
        std::array<std::size_t, 3> b{q[kOrders[o][0]], q[kOrders[o][1]], q[kOrders[o][2]]};
        Tri y{p[b[0]], p[b[1]], p[b[2]]};
        if (flat(y)) {
          continue;
        }
        auto want = common(x, y);
        count(c, x, y, want.size());
        if (swap) {
          check(list, f, &ins, b, a, y, x, want);
        } else {
          check(list, f, &ins, a, b, x, y, want);
        }
        o = (o + 1) % 6;
        ++n;
      }
    }
  }
  c.evals(n);
}

int main(int argc, char** argv) {
  pbt::Engine e;
  return e.main(argc, argv);
}
