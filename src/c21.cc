// C21: spatial search returns every candidate and only candidates.
#include <kigumi/AABB_tree/AABB_leaf.h>
#include <kigumi/AABB_tree/AABB_tree.h>
#include <kigumi/Find_possibly_intersecting_faces.h>

#include "oracle.h"

using namespace oracle;

namespace {

using Box = CGAL::Bbox_3;
using Q = CGAL::Exact_rational;

class Leaf : public kigumi::AABB_leaf {
 public:
  Leaf(const Box& b, int id) : AABB_leaf{b}, id_{id} {}
  int id() const { return id_; }

 private:
  int id_;
};
using Tree = kigumi::AABB_tree<Leaf>;

std::string show(const Box& b) {
  std::ostringstream o;
  o.precision(17);
  o << "[" << b.xmin() << "," << b.xmax() << "]x[" << b.ymin() << "," << b.ymax() << "]x[" << b.zmin() << "," << b.zmax() << "]";
  return o.str();
}

struct Style {
  int kind{};       // 0 lattice, 1 quarter steps, 2 arbitrary doubles, 3 wide range of magnitudes, 4 a few values
  bool flat[3]{};   // extents of zero
};

double coord(pbt::Source& s, const Style& st) {
  switch (st.kind) {
    case 0:
      return double(s.around(6));
    case 1:
      return double(s.around(80)) / 4;
    case 2:
      return std::ldexp(double(s.below(1ULL << 53)), -50) - 4;
    case 3:
      return (s.flip() ? 1 : -1) * std::ldexp(1 + double(s.below(8)) / 8, int(s.around(300)));
    default:
      return s.one_of({0.0, 1.0, -0.0, 1e300, -1e300, 1e-300, 1e308});
  }
}

Box gen_box(pbt::Source& s, const Style& st) {
  double lo[3], hi[3];
  bool near = st.kind <= 2 && !s.chance(1, 8);
  for (int i = 0; i < 3; ++i) {
    double a = coord(s, st);
    double b = near ? a + std::fabs(coord(s, st)) / 8 : coord(s, st);
    if (st.flat[i] || s.chance(1, 8)) {
      b = a;
    }
    lo[i] = std::min(a, b);
    hi[i] = std::max(a, b);
  }
  return {lo[0], lo[1], lo[2], hi[0], hi[1], hi[2]};
}

bool overlap(const Box& a, const Box& b) {
  for (int i = 0; i < 3; ++i) {
    if (a.max(i) < b.min(i) || b.max(i) < a.min(i)) {
      return false;
    }
  }
  return true;
}

// Whether the closed ray o + t d, t >= 0, meets the closed box.
bool meets(const std::array<Q, 3>& o, const std::array<Q, 3>& d, const Box& b) {
  Q t0 = 0, t1 = 0;
  bool bounded = false;
  for (int i = 0; i < 3; ++i) {
    Q lo = Q{b.min(i)} - o[i], hi = Q{b.max(i)} - o[i];
    if (d[i] == 0) {
      if (lo > 0 || hi < 0) {
        return false;
      }
      continue;
    }
    Q u = lo / d[i], v = hi / d[i];
    if (u > v) {
      std::swap(u, v);
    }
    t0 = std::max(t0, u);
    t1 = bounded ? std::min(t1, v) : v;
    bounded = true;
  }
  return t0 <= t1;
}

template <class Query>
std::vector<int> search(const Tree& t, const Query& q) {
  std::vector<const Leaf*> l;
  t.get_intersecting_leaves(std::back_inserter(l), q);
  std::vector<int> r;
  for (const auto* x : l) {
    r.push_back(x->id());
  }
  return r;
}

void compare(std::vector<int> got, const std::vector<int>& want, const std::vector<Box>& boxes, const std::string& q) {
  std::sort(got.begin(), got.end());
  if (auto d = std::adjacent_find(got.begin(), got.end()); d != got.end()) {
    pbt::fail("twice", "query " + q + ": box " + std::to_string(*d) + " is reported twice");
  }
  std::vector<int> diff;
  std::set_difference(want.begin(), want.end(), got.begin(), got.end(), std::back_inserter(diff));
  if (!diff.empty()) {
    pbt::fail("missing", "query " + q + ": box " + std::to_string(diff[0]) + " " + show(boxes[std::size_t(diff[0])]) + " is not reported");
  }
  std::set_difference(got.begin(), got.end(), want.begin(), want.end(), std::back_inserter(diff));
  if (!diff.empty()) {
    pbt::fail("extra", "query " + q + ": box " + std::to_string(diff[0]) + " " +
                           (diff[0] >= 0 && std::size_t(diff[0]) < boxes.size() ? show(boxes[std::size_t(diff[0])]) : "?") +
                           " is reported but does not meet it");
  }
}

}  // namespace

PBT_SUB(boxes, 18000, 120000,
        "0 to 600 boxes (lattice, dyadic, arbitrary doubles, wide magnitudes, extremes; flat, point-like, duplicated, all equal) "
        "in one to three trees built with different thread limits, 12 box queries and 8 ray queries each (rays through box corners, "
        "along faces, axis-parallel, from inside); oracle: brute force over all boxes, rays in exact rationals; non-trivial: a "
        "query has both hits and misses") {
  auto& s = c.src;
  Style st;
  st.kind = int(s.weighted({4, 3, 3, 1, 1}));
  if (s.chance(1, 4)) {
    st.flat[s.below(3)] = true;
  }
  std::size_t n = s.weighted({1, 4, 4, 2}) == 0 ? s.size(0, 3) : 0;
  if (n == 0 && !s.chance(1, 30)) {
    n = s.one_of<std::size_t>({1, 4, 8, 16, 40, 100, 300});
    n += s.size(0, n);
  }
  std::vector<Box> boxes;
  auto dup = s.one_of<std::uint64_t>({16, 4, 2, 1});
  for (std::size_t i = 0; i < n; ++i) {
    boxes.push_back(!boxes.empty() && s.chance(dup == 1 ? 19 : 1, dup == 1 ? 20 : dup + 1) ? boxes[s.below(boxes.size())]
                                                                                         : gen_box(s, st));
  }
  std::string d = std::to_string(n) + " boxes, style " + std::to_string(st.kind) + "\n";
  for (std::size_t i = 0; i < boxes.size() && i < 40; ++i) {
    d += show(boxes[i]) + "\n";
  }
  c.describe(d);
  c.label(n == 0 ? "no boxes" : n == 1 ? "1 box" : n < 4 ? "2 or 3 boxes" : n < 32 ? "4 to 31 boxes" : "32 boxes or more");
  std::vector<std::unique_ptr<Tree>> trees;
  auto nt = s.size(1, 3);
  for (std::size_t i = 0; i < nt; ++i) {
    std::vector<Leaf> leaves;
    for (std::size_t j = 0; j < n; ++j) {
      leaves.emplace_back(boxes[j], int(j));
    }
    kigumi::Threading_options o;
    o.set_num_threads(s.one_of<std::size_t>({1, 2, 3, 4, 8, 64}));
    kigumi::Threading_context ctx{o};
    trees.push_back(std::make_unique<Tree>(std::move(leaves)));
  }
  std::uint64_t evals = 0;
  auto note = [&](const std::vector<int>& want) {
    c.nontrivial |= !want.empty() && want.size() < n;
    ++evals;
  };
  for (int k = 0; k < 12; ++k) {
    Box q = n > 0 && s.flip() ? boxes[s.below(n)] : gen_box(s, st);
    std::vector<int> want;
    for (std::size_t j = 0; j < n; ++j) {
      if (overlap(boxes[j], q)) {
        want.push_back(int(j));
      }
    }
    note(want);
    for (const auto& t : trees) {
      compare(search(*t, q), want, boxes, show(q));
    }
  }
  for (int k = 0; k < 8; ++k) {
    auto corner = [&]() -> std::array<double, 3> {
      Box b = n > 0 && !s.chance(1, 4) ? boxes[s.below(n)] : gen_box(s, st);
      std::array<double, 3> r{};
      for (int i = 0; i < 3; ++i) {
        r[i] = s.flip() ? b.max(i) : b.min(i);
      }
      return r;
    };
    auto a = corner(), b = corner();
    if (s.chance(1, 3)) {  // parallel to an axis or a coordinate plane
      b[s.below(3)] = a[0];
      auto i = s.below(3), j = s.below(3);
      b = a;
      b[i] += double(s.around(2));
      b[j] += double(s.around(3));
    }
    if (a == b) {
      b[s.below(3)] += s.flip() ? 1.0 : -1.0;
    }
    if (a == b) {
      continue;  // beyond the resolution of doubles
    }
    bool third = st.kind <= 2 && s.chance(1, 3);
    P3 pa{a[0], a[1], a[2]}, pb{b[0], b[1], b[2]};
    if (third) {
      pa = pa + (pb - pa) / FT{3};
    }
    K::Ray_3 ray{pa, pb};
    std::array<Q, 3> o{pa.exact().x(), pa.exact().y(), pa.exact().z()};
    std::array<Q, 3> dir{Q{b[0]} - o[0], Q{b[1]} - o[1], Q{b[2]} - o[2]};
    std::vector<int> want;
    for (std::size_t j = 0; j < n; ++j) {
      if (meets(o, dir, boxes[j])) {
        want.push_back(int(j));
      }
    }
    note(want);
    for (const auto& t : trees) {
      compare(search(*t, ray), want, boxes, "ray (" + gen::fmt(pa) + ") -> (" + gen::fmt(pb) + ")");
    }
  }
  c.evals(evals);
}

PBT_SUB(face_pairs, 12000, 40000,
        "two meshes (solids of any relation, also with rational coordinates): every pair of faces not set aside by its tag that "
        "intersects must be among the candidate pairs, each candidate once and with overlapping boxes; non-trivial: some pair "
        "intersects") {
  auto& s = c.src;
  auto p = gen::gen_pair(s);
  auto a = gen::to_soup(p.a), b = gen::to_soup(p.b);
  c.describe(p.relation + "\nA: " + gen::show(p.a) + "B: " + gen::show(p.b));
  using Tag = kigumi::Face_tag;
  std::vector<Tag> ta(a.num_faces()), tb(b.num_faces());
  bool tags = s.flip();
  auto set = [&](std::vector<Tag>& t) {
    for (auto& x : t) {
      x = tags && s.chance(1, 4) ? (s.flip() ? Tag::COPLANAR : Tag::OPPOSITE) : Tag::UNKNOWN;
    }
  };
  set(ta);
  set(tb);
  kigumi::Threading_options o;
  o.set_num_threads(s.one_of<std::size_t>({1, 2, 8}));
  kigumi::Threading_context ctx{o};
  auto pairs = kigumi::Find_possibly_intersecting_faces<K, FD>{}(a, b, ta, tb);
  std::set<std::pair<std::size_t, std::size_t>> got;
  for (auto [f, g] : pairs) {
    auto where = "(" + std::to_string(f.idx()) + ", " + std::to_string(g.idx()) + ")";
    if (f.idx() >= ta.size() || g.idx() >= tb.size() || !got.emplace(f.idx(), g.idx()).second) {
      pbt::fail("pairs", "the pair " + where + " is listed twice or does not exist");
    }
    if (ta[f.idx()] != Tag::UNKNOWN || tb[g.idx()] != Tag::UNKNOWN) {
      pbt::fail("pairs", "the pair " + where + " has a face set aside");
    }
  }
  std::uint64_t k = 0;
  auto bounds = [](const gen::M& m, std::size_t i) {
    const auto& f = m.f[i];
    return box(m.p[f[0]]) + box(m.p[f[1]]) + box(m.p[f[2]]);
  };
  for (std::size_t i = 0; i < ta.size(); ++i) {
    for (std::size_t j = 0; j < tb.size(); ++j) {
      bool found = got.count({i, j}) != 0;
      if (found && !overlap(bounds(p.a, i), bounds(p.b, j))) {
        pbt::fail("pairs", "the boxes of the pair (" + std::to_string(i) + ", " + std::to_string(j) + ") are disjoint");
      }
      if (found || ta[i] != Tag::UNKNOWN || tb[j] != Tag::UNKNOWN) {
        continue;
      }
      ++k;
      const auto &f = p.a.f[i], &g = p.b.f[j];
      if (CGAL::do_intersect(Triangle{p.a.p[f[0]], p.a.p[f[1]], p.a.p[f[2]]}, Triangle{p.b.p[g[0]], p.b.p[g[1]], p.b.p[g[2]]})) {
        pbt::fail("pairs", "the intersecting pair (" + std::to_string(i) + ", " + std::to_string(j) + ") is missing");
      }
    }
  }
  c.nontrivial = !got.empty();
  c.evals(k);
}

PBT_SUB(large, 400, 6000,
        "1000 to 200000 boxes (scattered, in layers, along a line, in clusters, nested, all at one place) with integer corners in one tree "
        "built with any thread limit, 10 box and 10 ray queries (all dyadic, so decided exactly in integers); oracle: brute force; "
        "non-trivial: a query has both hits and misses") {
  auto& s = c.src;
  std::size_t n = s.one_of<std::size_t>({s.size(1000, 9000), s.size(9000, 70000), c.tier == "thorough" ? s.size(70000, 200000) : s.size(30000, 100000)});
  auto kind = s.below(6);
  std::uint64_t seed = s.below(1 << 20);
  int span = int(s.one_of({20, 200, 2000})), ext = int(s.one_of({0, 1, 4, 30}));
  auto r = [&](int m) { return int(pbt::splitmix(seed) % std::uint64_t(2 * m + 1)) - m; };
  std::vector<std::array<int, 6>> ib;  // lower and upper corner
  std::vector<Box> boxes;
  std::array<int, 3> centre{};
  for (std::size_t i = 0; i < n; ++i) {
    std::array<int, 3> p{}, e{};
    for (int k = 0; k < 3; ++k) {
      p[k] = r(span);
      e[k] = std::abs(r(ext));
    }
    if (kind == 1) {
      p[2] = p[2] / 50 * 50;
      e[2] = 0;
    } else if (kind == 2) {
      p = {int(i % 4000), int(i % 4000), int(i % 4000) / 3};
    } else if (kind == 3) {
      if (i % 1000 == 0) {
        centre = p;
      }
      for (int k = 0; k < 3; ++k) {
        p[k] = centre[k] + p[k] % 5;
      }
    } else if (kind == 4) {
      int q = int(i % 3000);
      p = {-q, -q, -q};
      e = {2 * q, q, 2 * q};
    } else if (kind == 5) {
      p = {1, 2, 3};
    }
    ib.push_back({p[0], p[1], p[2], p[0] + e[0], p[1] + e[1], p[2] + e[2]});
    const auto& x = ib.back();
    boxes.emplace_back(x[0], x[1], x[2], x[3], x[4], x[5]);
  }
  c.describe(std::to_string(n) + " boxes, layout " + std::to_string(kind) + ", span " + std::to_string(span) + ", extent " + std::to_string(ext) +
             ", seed " + std::to_string(seed) + "\n");
  c.label(n > 65536 ? "more than 65536 boxes" : n > 10000 ? "more than 10000 boxes" : "smaller");
  std::vector<Leaf> leaves;
  for (std::size_t i = 0; i < n; ++i) {
    leaves.emplace_back(boxes[i], int(i));
  }
  kigumi::Threading_options o;
  o.set_num_threads(s.one_of<std::size_t>({1, 2, 8}));
  kigumi::Threading_context ctx{o};
  Tree t{std::move(leaves)};
  auto finish = [&](const std::vector<int>& want, const std::vector<int>& got, const std::string& q) {
    c.nontrivial |= !want.empty() && want.size() < n;
    c.evals(n);
    compare(got, want, boxes, q);
  };
  std::vector<int> want;
  for (int k = 0; k < 10; ++k) {
    std::array<int, 6> q = ib[s.below(n)];
    auto grow = int(s.one_of({0, 1, 5, 40, 400}));
    for (int i = 0; i < 3; ++i) {
      q[i] -= int(s.range(0, grow));
      q[3 + i] += int(s.range(0, grow));
    }
    want.clear();
    for (std::size_t j = 0; j < n; ++j) {
      const auto& x = ib[j];
      if (x[0] <= q[3] && q[0] <= x[3] && x[1] <= q[4] && q[1] <= x[4] && x[2] <= q[5] && q[2] <= x[5]) {
        want.push_back(int(j));
      }
    }
    Box b(q[0], q[1], q[2], q[3], q[4], q[5]);
    finish(want, search(t, b), show(b));
  }
  for (int k = 0; k < 10; ++k) {
    std::array<std::int64_t, 3> a{}, d{};
    for (int i = 0; i < 3; ++i) {
      const auto& x = ib[s.below(n)];
      a[i] = s.chance(1, 4) ? x[i] - s.range(0, 3) : x[i + (s.flip() ? 3 : 0)];
      const auto& y = ib[s.below(n)];
      d[i] = s.chance(1, 3) ? s.around(2) : y[i] - a[i];
    }
    if (d[0] == 0 && d[1] == 0 && d[2] == 0) {
      d[s.below(3)] = s.flip() ? 1 : -1;
    }
    want.clear();
    for (std::size_t j = 0; j < n; ++j) {
      // t in [n0/d0, n1/d1], with positive denominators
      std::int64_t n0 = 0, d0 = 1, n1 = 1, d1 = 0;
      bool hit = true;
      for (int i = 0; i < 3 && hit; ++i) {
        std::int64_t lo = ib[j][i] - a[i], hi = ib[j][3 + i] - a[i], v = d[i];
        if (v == 0) {
          hit = lo <= 0 && hi >= 0;
          continue;
        }
        if (v < 0) {
          v = -v;
          std::swap(lo, hi);
          lo = -lo;
          hi = -hi;
        }
        if (lo * d0 > n0 * v) {
          n0 = lo;
          d0 = v;
        }
        if (hi * d1 < n1 * v) {
          n1 = hi;
          d1 = v;
        }
      }
      if (hit && n0 * d1 <= n1 * d0) {
        want.push_back(int(j));
      }
    }
    P3 pa{double(a[0]), double(a[1]), double(a[2])}, pb{double(a[0] + d[0]), double(a[1] + d[1]), double(a[2] + d[2])};
    finish(want, search(t, K::Ray_3{pa, pb}), "ray (" + gen::fmt(pa) + ") -> (" + gen::fmt(pb) + ")");
  }
}

PBT_SUB(large_face_pairs, 100, 2000,
        "two meshes of 500 to 90000 triangles each with integer corners (small ones, long ones, sheets), some set aside: as in face_pairs, "
        "with all pairs of faces with overlapping boxes checked; non-trivial: some pair intersects") {
  auto& s = c.src;
  std::uint64_t seed = s.below(1 << 20);
  auto r = [&](int m) { return int(pbt::splitmix(seed) % std::uint64_t(2 * m + 1)) - m; };
  int span = int(s.one_of({60, 200}));
  bool tags = s.flip();
  using Tag = kigumi::Face_tag;
  struct Side {
    Soup soup;
    std::vector<std::array<std::array<int, 3>, 3>> tri;
    std::vector<Tag> tag;
  };
  auto make = [&](std::size_t n) {
    Side x;
    int size = int(s.range(1, 3));
    auto longer = s.one_of<std::size_t>({0, 50});
    for (std::size_t i = 0; i < n; ++i) {
      std::array<std::array<int, 3>, 3> q{};
      int z = longer != 0 && i % (n / longer + 1) == 0 ? span / 4 : size;
      for (int k = 0; k < 3; ++k) {
        q[0][k] = r(span);
      }
      do {
        for (int k = 0; k < 3; ++k) {
          q[1][k] = q[0][k] + r(z);
          q[2][k] = q[0][k] + r(z);
        }
      } while (CGAL::collinear(CGAL::Exact_predicates_inexact_constructions_kernel::Point_3(q[0][0], q[0][1], q[0][2]),
                               CGAL::Exact_predicates_inexact_constructions_kernel::Point_3(q[1][0], q[1][1], q[1][2]),
                               CGAL::Exact_predicates_inexact_constructions_kernel::Point_3(q[2][0], q[2][1], q[2][2])));
      std::array<Vertex_index, 3> v;
      for (int k = 0; k < 3; ++k) {
        v[std::size_t(k)] = x.soup.add_vertex(P3{q[k][0], q[k][1], q[k][2]});
      }
      x.soup.add_face({v[0], v[1], v[2]});
      x.tri.push_back(q);
      x.tag.push_back(tags && r(3) == 0 ? Tag::COPLANAR : tags && r(3) == 0 ? Tag::OPPOSITE : Tag::UNKNOWN);
    }
    return x;
  };
  auto big = [&] { return s.one_of<std::size_t>({s.size(1000, 5000), s.size(5000, c.tier == "thorough" ? 40000 : 15000)}); };
  auto na = big(), nb = big();
  if (s.chance(1, 4)) {
    na = s.size(66000, 90000);
    nb = s.flip() ? s.size(66000, 90000) : s.size(500, 2000);
    if (s.flip()) {
      std::swap(na, nb);
    }
  }
  auto a = make(na), b = make(nb);
  c.describe("meshes of " + std::to_string(a.tri.size()) + " and " + std::to_string(b.tri.size()) + " faces\n");
  kigumi::Threading_options o;
  o.set_num_threads(s.one_of<std::size_t>({1, 2, 8}));
  kigumi::Threading_context ctx{o};
  auto pairs = kigumi::Find_possibly_intersecting_faces<K, FD>{}(a.soup, b.soup, a.tag, b.tag);
  std::vector<std::pair<std::size_t, std::size_t>> got;
  for (auto [f, g] : pairs) {
    got.emplace_back(f.idx(), g.idx());
  }
  std::sort(got.begin(), got.end());
  auto where = [](auto p) { return "(" + std::to_string(p.first) + ", " + std::to_string(p.second) + ")"; };
  if (auto d = std::adjacent_find(got.begin(), got.end()); d != got.end()) {
    pbt::fail("pairs", "the pair " + where(*d) + " is listed twice");
  }
  auto box_of = [](const auto& q) {
    std::array<int, 6> x{};
    for (int k = 0; k < 3; ++k) {
      x[k] = std::min({q[0][k], q[1][k], q[2][k]});
      x[3 + k] = std::max({q[0][k], q[1][k], q[2][k]});
    }
    return x;
  };
  auto apart = [](const std::array<int, 6>& x, const std::array<int, 6>& y) {
    return x[0] > y[3] || y[0] > x[3] || x[1] > y[4] || y[1] > x[4] || x[2] > y[5] || y[2] > x[5];
  };
  std::vector<std::array<int, 6>> ba, bb;
  for (const auto& q : a.tri) {
    ba.push_back(box_of(q));
  }
  for (const auto& q : b.tri) {
    bb.push_back(box_of(q));
  }
  for (const auto& p : got) {
    if (p.first >= ba.size() || p.second >= bb.size() || a.tag[p.first] != Tag::UNKNOWN || b.tag[p.second] != Tag::UNKNOWN) {
      pbt::fail("pairs", "the pair " + where(p) + " does not exist or has a face set aside");
    }
    if (apart(ba[p.first], bb[p.second])) {
      pbt::fail("pairs", "the boxes of the pair " + where(p) + " are disjoint");
    }
  }
  using EK = CGAL::Exact_predicates_inexact_constructions_kernel;
  auto triangle = [](const auto& q) {
    return EK::Triangle_3{EK::Point_3(q[0][0], q[0][1], q[0][2]), EK::Point_3(q[1][0], q[1][1], q[1][2]), EK::Point_3(q[2][0], q[2][1], q[2][2])};
  };
  std::uint64_t hits = 0;
  // By their least coordinate, so that only some of the pairs need a look.
  std::vector<std::pair<int, std::size_t>> by_x;
  int widest = 0;
  for (std::size_t j = 0; j < bb.size(); ++j) {
    by_x.emplace_back(bb[j][0], j);
    widest = std::max(widest, bb[j][3] - bb[j][0]);
  }
  std::sort(by_x.begin(), by_x.end());
  for (std::size_t i = 0; i < ba.size(); ++i) {
    if (a.tag[i] != Tag::UNKNOWN) {
      continue;
    }
    for (auto it = std::lower_bound(by_x.begin(), by_x.end(), std::make_pair(ba[i][0] - widest, std::size_t{0})); it != by_x.end() && it->first <= ba[i][3]; ++it) {
      auto j = it->second;
      if (apart(ba[i], bb[j])) {
        continue;
      }
      bool found = std::binary_search(got.begin(), got.end(), std::make_pair(i, j));
      if (found || b.tag[j] != Tag::UNKNOWN) {
        hits += found ? 1 : 0;
        continue;
      }
      if (CGAL::do_intersect(triangle(a.tri[i]), triangle(b.tri[j]))) {
        pbt::fail("pairs", "the intersecting pair " + where(std::make_pair(i, j)) + " is missing");
      }
    }
  }
  c.nontrivial = !got.empty();
  c.label(got.size() > 65536 ? "more than 65536 pairs" : "fewer pairs");
  c.evals(hits + ba.size());
}

int main(int argc, char** argv) {
  pbt::Engine e;
  return e.main(argc, argv);
}
