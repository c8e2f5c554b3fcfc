// Independent exact oracles on triangle meshes.  They use CGAL's exact kernel predicates (the trusted base) and none of
// the code under test beyond reading points and faces out of it.
#pragma once
#include <CGAL/Bbox_3.h>

#include <array>
#include <cmath>
#include <limits>
#include <map>
#include <optional>
#include <set>
#include <string>
#include <vector>

#include "gen.h"

namespace oracle {

using gen::M;
using Triangle = K::Triangle_3;
using Segment = K::Segment_3;
using Vec = K::Vector_3;

inline CGAL::Bbox_3 box(const P3& p) { return p.approx().bbox(); }

// An exact map that moves points which are tiny beside their distance from the origin to the origin and magnifies them, axis by
// axis, so that the kernel's interval filters work.  It preserves orientations.  The identity for ordinary points.
class Norm {
  using E = CGAL::Exact_rational;

 public:
  Norm() = default;
  explicit Norm(const std::vector<P3>& ps) {
    for (int i = 0; i < 3 && !ps.empty(); ++i) {
      double lo = std::numeric_limits<double>::infinity(), hi = -lo;
      for (const auto& p : ps) {
        auto b = box(p);
        lo = std::min(lo, b.min(i));
        hi = std::max(hi, b.max(i));
      }
      if (hi - lo > 1e-9 * std::max(std::abs(lo), std::abs(hi))) {
        continue;
      }
      E a = ps[0].exact()[i], b = a;
      for (const auto& p : ps) {
        const E& x = p.exact()[i];
        a = x < a ? x : a;
        b = b < x ? x : b;
      }
      if (a == b) {
        continue;
      }
      on_ = true;
      o_[i] = a;
      double d = CGAL::to_double(E{b - a});
      k_[i] = E{std::ldexp(1.0, -std::ilogb(d))};
    }
  }
  bool on() const { return on_; }
  P3 operator()(const P3& p) const {
    if (!on_) {
      return p;
    }
    const auto& e = p.exact();
    return P3{FT{E{(e.x() - o_[0]) * k_[0]}}, FT{E{(e.y() - o_[1]) * k_[1]}}, FT{E{(e.z() - o_[2]) * k_[2]}}};
  }
  void apply(std::vector<P3>& ps) const {
    if (on_) {
      for (auto& p : ps) {
        p = (*this)(p);
      }
    }
  }

 private:
  bool on_{};
  std::array<E, 3> o_{E{0}, E{0}, E{0}}, k_{E{1}, E{1}, E{1}};
};

// The membership oracle of the solid bounded by a closed mesh (or its complement).
class Geo {
 public:
  explicit Geo(const M& m) {
    std::vector<P3> used;
    for (const auto& f : m.f) {
      for (int v : f) {
        used.push_back(m.p[v]);
      }
    }
    norm_ = Norm{used};
    auto ps = m.p;
    norm_.apply(ps);
    for (const auto& f : m.f) {
      T t{{m.p[f[0]], m.p[f[1]], m.p[f[2]]}, {ps[f[0]], ps[f[1]], ps[f[2]]}, {}};
      t.b = box(t.v[0]) + box(t.v[1]) + box(t.v[2]);
      nbb_ += t.b;
      bb_ += box(t.orig[0]) + box(t.orig[1]) + box(t.orig[2]);
      t_.push_back(t);
    }
    if (!t_.empty()) {
      vol_ = compute_volume6();
      inverted_ = vol_ < 0;
    }
  }
  std::size_t size() const { return t_.size(); }
  // Six times the signed volume.
  const FT& volume6() const { return vol_; }
  // Of an open surface: of the cone over it with the given apex.
  FT volume6_about(const P3& apex) const {
    using E = CGAL::Exact_rational;
    E s{0};
    const auto& o = apex.exact();
    for (const auto& t : t_) {
      const auto &a = t.orig[0].exact(), &b = t.orig[1].exact(), &c = t.orig[2].exact();
      E ax = a.x() - o.x(), ay = a.y() - o.y(), az = a.z() - o.z();
      E bx = b.x() - o.x(), by = b.y() - o.y(), bz = b.z() - o.z();
      E cx = c.x() - o.x(), cy = c.y() - o.y(), cz = c.z() - o.z();
      s += ax * (by * cz - bz * cy) - ay * (bx * cz - bz * cx) + az * (bx * cy - by * cx);
    }
    return FT{s};
  }
  bool inverted() const { return inverted_; }
  const CGAL::Bbox_3& bbox() const { return bb_; }
  const P3& v(std::size_t i, int k) const { return t_[i].orig[k]; }

  // Indices of the faces that contain p.
  std::vector<std::size_t> containing(const P3& q) const {
    std::vector<std::size_t> r;
    P3 p = norm_(q);
    auto b = box(p);
    for (std::size_t i = 0; i < t_.size(); ++i) {
      const auto& v = t_[i].v;
      if (CGAL::do_overlap(b, t_[i].b) && CGAL::orientation(v[0], v[1], v[2], p) == CGAL::COPLANAR &&
          CGAL::coplanar_orientation(v[0], v[1], v[2], p) != CGAL::NEGATIVE &&
          CGAL::coplanar_orientation(v[1], v[2], v[0], p) != CGAL::NEGATIVE &&
          CGAL::coplanar_orientation(v[2], v[0], v[1], p) != CGAL::NEGATIVE) {
        r.push_back(i);
      }
    }
    return r;
  }

  // Winding number of the surface around p, which must not be on the surface.
  int winding(const P3& at) const {
    P3 p = norm_(at);
    // Far end points of rays, in a few fixed skew directions.
    static const std::array<std::array<double, 3>, 12> dirs{{{1, 0.0937, 0.0519},
                                                             {0.0711, 1, 0.1131},
                                                             {0.1271, 0.0333, 1},
                                                             {-1, 0.1777, 0.0917},
                                                             {0.3111, -1, -0.1737},
                                                             {0.2971, -0.4133, -1},
                                                             {1, 0.7717, 0.3319},
                                                             {-0.5211, 1, 0.8831},
                                                             {0.6377, -0.9231, 1},
                                                             {-1, -0.5711, -0.8713},
                                                             {0.1917, 0.8731, -0.3371},
                                                             {0.9137, -0.2377, 0.7713}}};
    double px = CGAL::to_double(p.x()), py = CGAL::to_double(p.y()), pz = CGAL::to_double(p.z());
    double len = std::max({nbb_.xmax() - nbb_.xmin(), nbb_.ymax() - nbb_.ymin(), nbb_.zmax() - nbb_.zmin(),
                           std::abs(px - nbb_.xmin()), std::abs(px - nbb_.xmax()), std::abs(py - nbb_.ymin()),
                           std::abs(py - nbb_.ymax()), std::abs(pz - nbb_.zmin()), std::abs(pz - nbb_.zmax())}) *
                 8;
    for (const auto& d : dirs) {
      P3 q{px + d[0] * len, py + d[1] * len, pz + d[2] * len};
      auto b = box(p) + box(q);
      int w = 0;
      bool ok = true;
      for (const auto& t : t_) {
        if (!CGAL::do_overlap(b, t.b)) {
          continue;
        }
        auto o1 = CGAL::orientation(t.v[0], t.v[1], t.v[2], p);
        auto o2 = CGAL::orientation(t.v[0], t.v[1], t.v[2], q);
        if (o1 == o2 && o1 != CGAL::COPLANAR) {
          continue;
        }
        auto s1 = CGAL::orientation(p, q, t.v[0], t.v[1]);
        auto s2 = CGAL::orientation(p, q, t.v[1], t.v[2]);
        auto s3 = CGAL::orientation(p, q, t.v[2], t.v[0]);
        if (o1 != CGAL::COPLANAR && o2 != CGAL::COPLANAR && s1 != CGAL::COPLANAR && s2 != CGAL::COPLANAR &&
            s3 != CGAL::COPLANAR) {
          if (s1 == s2 && s2 == s3) {
            // p on the negative side (inside), q on the positive side: leaving.
            w += o2 == CGAL::POSITIVE ? 1 : -1;
          }
          continue;
        }
        // A degenerate position; harmless when the segment misses the closed triangle.
        bool pos = s1 == CGAL::POSITIVE || s2 == CGAL::POSITIVE || s3 == CGAL::POSITIVE;
        bool neg = s1 == CGAL::NEGATIVE || s2 == CGAL::NEGATIVE || s3 == CGAL::NEGATIVE;
        if (pos && neg) {
          continue;
        }
        ok = false;
        break;
      }
      if (ok) {
        return w;
      }
    }
    throw std::runtime_error("oracle: no generic ray found");
  }

  // Whether p (off the surface) is inside; nullopt if the surface is not the boundary of a region.
  std::optional<bool> inside(const P3& p) const {
    int w = winding(p) + (inverted_ ? 1 : 0);
    if (w != 0 && w != 1) {
      return std::nullopt;
    }
    return w == 1;
  }

 private:
  struct T {
    std::array<P3, 3> orig;
    std::array<P3, 3> v;  // normalised
    CGAL::Bbox_3 b;
  };
  FT compute_volume6() const { return volume6_about(t_[0].orig[0]); }
  std::vector<T> t_;
  Norm norm_;
  CGAL::Bbox_3 bb_;   // of the original points
  CGAL::Bbox_3 nbb_;  // of the normalised points
  FT vol_{0};
  bool inverted_{};
};

// ---------------------------------------------------------------------------------------------------------------------

inline bool point_less(const P3& a, const P3& b) { return CGAL::lexicographically_xyz_smaller(a, b); }

// Maps every vertex to a canonical vertex with the same position.
inline std::vector<int> canonical(const M& m) {
  std::vector<int> idx(m.p.size()), canon(m.p.size());
  for (std::size_t i = 0; i < idx.size(); ++i) {
    idx[i] = int(i);
  }
  std::stable_sort(idx.begin(), idx.end(), [&](int a, int b) { return point_less(m.p[a], m.p[b]); });
  for (std::size_t i = 0; i < idx.size(); ++i) {
    canon[idx[i]] = i > 0 && m.p[idx[i]] == m.p[idx[i - 1]] ? canon[idx[i - 1]] : idx[i];
  }
  return canon;
}

inline bool bad_pair(const M& m, const std::array<int, 3>& f, const std::array<int, 3>& g) {
  std::vector<int> shared, rf, rg;
  for (int v : f) {
    (std::find(g.begin(), g.end(), v) != g.end() ? shared : rf).push_back(v);
  }
  for (int v : g) {
    if (std::find(f.begin(), f.end(), v) == f.end()) {
      rg.push_back(v);
    }
  }
  if (shared.size() == 3) {
    return true;
  }
  if (shared.size() == 2) {
    const auto &p = m.p[shared[0]], &q = m.p[shared[1]], &r = m.p[rf[0]], &t = m.p[rg[0]];
    return CGAL::orientation(p, q, r, t) == CGAL::COPLANAR &&
           CGAL::coplanar_orientation(p, q, r, t) == CGAL::POSITIVE;
  }
  Triangle tf{m.p[f[0]], m.p[f[1]], m.p[f[2]]}, tg{m.p[g[0]], m.p[g[1]], m.p[g[2]]};
  if (shared.size() == 1) {
    return CGAL::do_intersect(Segment{m.p[rf[0]], m.p[rf[1]]}, tg) || CGAL::do_intersect(Segment{m.p[rg[0]], m.p[rg[1]]}, tf);
  }
  return CGAL::do_intersect(tf, tg);
}

struct Validity {
  bool closed{true};
};

// Empty string if the mesh satisfies the documented preconditions (and is closed, if asked for).
inline std::string validity(const M& orig, bool closed = true, bool check_intersections = true) {
  M m = orig;
  std::vector<P3> used;
  for (const auto& f : m.f) {
    for (int v : f) {
      used.push_back(m.p[v]);
    }
  }
  Norm{used}.apply(m.p);
  auto c = canonical(m);
  std::vector<std::array<int, 3>> fs;
  std::map<std::pair<int, int>, int> he;
  std::set<std::array<int, 3>> seen;
  for (std::size_t i = 0; i < m.f.size(); ++i) {
    std::array<int, 3> f{c[m.f[i][0]], c[m.f[i][1]], c[m.f[i][2]]};
    if (CGAL::collinear(m.p[f[0]], m.p[f[1]], m.p[f[2]])) {
      return "face " + std::to_string(i) + " is degenerate";
    }
    auto k = f;
    std::sort(k.begin(), k.end());
    if (!seen.insert(k).second) {
      return "face " + std::to_string(i) + " occurs twice";
    }
    for (int j = 0; j < 3; ++j) {
      ++he[{f[j], f[(j + 1) % 3]}];
      --he[{f[(j + 1) % 3], f[j]}];
    }
    fs.push_back(f);
  }
  if (closed) {
    for (const auto& [e, n] : he) {
      if (n != 0) {
        return "not closed or not consistently oriented at edge (" + gen::fmt(orig.p[e.first]) + ") - (" +
               gen::fmt(orig.p[e.second]) + ")";
      }
    }
  }
  if (check_intersections) {
    std::vector<CGAL::Bbox_3> b;
    for (const auto& f : fs) {
      b.push_back(box(m.p[f[0]]) + box(m.p[f[1]]) + box(m.p[f[2]]));
    }
    std::vector<std::size_t> order(fs.size());
    for (std::size_t i = 0; i < order.size(); ++i) {
      order[i] = i;
    }
    std::sort(order.begin(), order.end(), [&](std::size_t i, std::size_t j) { return b[i].xmin() < b[j].xmin(); });
    for (auto it = order.begin(); it != order.end(); ++it) {
      for (auto jt = std::next(it); jt != order.end() && b[*jt].xmin() <= b[*it].xmax(); ++jt) {
        auto i = std::min(*it, *jt), j = std::max(*it, *jt);
        if (CGAL::do_overlap(b[i], b[j]) && bad_pair(m, fs[i], fs[j])) {
          return "faces " + std::to_string(i) + " and " + std::to_string(j) + " intersect";
        }
      }
    }
  }
  return "";
}

// ---------------------------------------------------------------------------------------------------------------------

inline bool apply(Op op, bool a, bool b) {
  switch (op) {
    case Op::V: return true;
    case Op::A: return a || b;
    case Op::B: return !(b && !a);
    case Op::C: return !(a && !b);
    case Op::D: return !(a && b);
    case Op::E: return a == b;
    case Op::F: return !a;
    case Op::G: return !b;
    case Op::H: return b;
    case Op::I: return a;
    case Op::J: return a != b;
    case Op::K: return a && b;
    case Op::L: return a && !b;
    case Op::M: return b && !a;
    case Op::X: return !(a || b);
    case Op::O: return false;
  }
  return false;
}
inline const char* name(Op op) {
  static const char* n[] = {"V", "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "X", "O"};
  return n[int(op)];
}
inline Op op_of(std::uint64_t i) { return static_cast<Op>(i); }

// An operand: the empty set, the universe, or the region bounded by a mesh.
struct Operand {
  int kind = 2;  // 0 empty, 1 full, 2 mesh
  M m;
  Geo g{M{}};
  Operand() = default;
  explicit Operand(const M& mm) : m{mm}, g{mm} {}
  static Operand constant(bool full) {
    Operand o;
    o.kind = full ? 1 : 0;
    return o;
  }
  Region region() const {
    return kind == 0 ? Region::empty() : kind == 1 ? Region::full() : gen::to_region(m);
  }
};

inline Operand operand_of(const Region& r) {
  if (r.is_empty()) {
    return Operand::constant(false);
  }
  if (r.is_full()) {
    return Operand::constant(true);
  }
  return Operand{gen::from_soup(r.boundary())};
}

// What the operand looks like in the neighbourhood of an interior point c of a plane piece with normal n: whether the
// positive and the negative side are inside.
struct Sides {
  bool pos{}, neg{};
  bool on{};        // the piece lies on the operand's boundary
  bool flipped{};   // ... with the opposite orientation
  bool bad{};       // the operand's surface crosses the plane piece at c
  std::size_t face{};
};

inline Sides sides_at(const Operand& o, const P3& c, const Vec& n) {
  Sides s;
  if (o.kind != 2) {
    s.pos = s.neg = o.kind == 1;
    return s;
  }
  auto fs = o.g.containing(c);
  if (fs.empty()) {
    auto in = o.g.inside(c);
    if (!in) {
      throw std::runtime_error("oracle: an operand is not a region");
    }
    s.pos = s.neg = *in;
    return s;
  }
  bool first = true;
  for (auto f : fs) {
    auto m = CGAL::cross_product(o.g.v(f, 1) - o.g.v(f, 0), o.g.v(f, 2) - o.g.v(f, 0));
    auto x = CGAL::cross_product(m, n);
    if (x.x() != 0 || x.y() != 0 || x.z() != 0) {
      s.bad = true;
      return s;
    }
    bool flip = CGAL::scalar_product(m, n) < 0;
    if (first) {
      s.on = true;
      s.flipped = flip;
      s.face = f;
      first = false;
    } else if (s.flipped != flip) {
      s.bad = true;
      return s;
    }
  }
  s.pos = s.flipped;
  s.neg = !s.flipped;
  return s;
}

inline P3 bary(const P3& a, const P3& b, const P3& c, int x, int y, int z) {
  FT n{x + y + z};
  auto f = [&](int i) { return (FT{x} * a[i] + FT{y} * b[i] + FT{z} * c[i]) / n; };
  return P3{f(0), f(1), f(2)};
}

}  // namespace oracle
