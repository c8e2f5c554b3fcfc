// The Boolean-operation oracle: decides whether a mesh is the boundary of op(A, B), regularised.
#pragma once
#include "oracle.h"

namespace oracle {

struct Check_options {
  int samples_per_face = 1;   // extra points per result face besides its centroid
  int surface_samples = 24;   // points on the operands' faces
  int space_samples = 4;      // points in space
  bool self_intersections = false;
  bool point_location = false;  // also ask the result itself (Region::bounded_side)
};

inline std::string side_name(CGAL::Bounded_side s) {
  return s == CGAL::ON_BOUNDARY ? "on the boundary" : s == CGAL::ON_BOUNDED_SIDE ? "inside" : "outside";
}
inline const char* yn(bool b) { return b ? "inside" : "outside"; }

inline std::string describe_pair(const Operand& a, const Operand& b) {
  auto s = [](const Operand& o) { return o.kind == 0 ? std::string{"EMPTY\n"} : o.kind == 1 ? std::string{"FULL\n"} : gen::show(o.m); };
  return "A: " + s(a) + "B: " + s(b);
}

// Throws pbt::Failure if r is not op(a, b).  Returns the number of oracle evaluations.
inline std::uint64_t check_result(pbt::Source& s, const Operand& a, const Operand& b, Op op, const Region& r,
                                  const Check_options& o = {}) {
  std::uint64_t n = 0;
  auto where = std::string{"op "} + name(op);
  auto bad = [&](const std::string& k, const std::string& m) { pbt::fail(k, where + ": " + m); };

  if (r.is_empty_or_full() && r.boundary().num_faces() != 0) {
    bad("kind", "an empty or full region has boundary faces");
  }
  if (!r.is_empty_or_full() && r.boundary().num_faces() == 0) {
    bad("kind", "a region with a boundary has no boundary faces");
  }
  Operand res = operand_of(r);
  if (res.kind == 2) {
    auto v = validity(res.m, true, false);
    if (!v.empty()) {
      bad("malformed", v);
    }
  }

  // 1. Every result face separates the inside (behind it) from the outside (in front of it).
  for (std::size_t i = 0; i < res.g.size(); ++i) {
    const auto &p = res.g.v(i, 0), &q = res.g.v(i, 1), &t = res.g.v(i, 2);
    auto nrm = CGAL::cross_product(q - p, t - p);
    for (int k = 0; k <= o.samples_per_face; ++k) {
      P3 c = k == 0 ? bary(p, q, t, 1, 1, 1) : bary(p, q, t, int(s.range(1, 9)), int(s.range(1, 9)), int(s.range(1, 9)));
      auto sa = sides_at(a, c, nrm), sb = sides_at(b, c, nrm);
      ++n;
      if (sa.bad || sb.bad) {
        bad("not-split", "the result face (" + gen::fmt(p) + ") (" + gen::fmt(q) + ") (" + gen::fmt(t) +
                             ") crosses an operand's boundary at " + gen::fmt(c));
      }
      if (!sa.on && !sb.on) {
        bad("off-surface", "the point " + gen::fmt(c) + " of a result face is on neither operand's boundary");
      }
      bool pos = apply(op, sa.pos, sb.pos), neg = apply(op, sa.neg, sb.neg);
      if (pos || !neg) {
        bad("wrong-face", "the result face (" + gen::fmt(p) + ") (" + gen::fmt(q) + ") (" + gen::fmt(t) +
                              ") has the expected region " + yn(pos) + " in front of it and " + yn(neg) + " behind it");
      }
    }
  }

  // 2. Points of the operands' faces are covered exactly when they are on the boundary of the expected region.
  auto surface_point = [&](const Operand& x) {
    auto i = s.below(x.g.size());
    const auto &p = x.g.v(i, 0), &q = x.g.v(i, 1), &t = x.g.v(i, 2);
    auto c = bary(p, q, t, int(s.range(1, 11)), int(s.range(1, 11)), int(s.range(1, 11)));
    auto nrm = CGAL::cross_product(q - p, t - p);
    auto sa = sides_at(a, c, nrm), sb = sides_at(b, c, nrm);
    if (sa.bad || sb.bad) {
      return;
    }
    ++n;
    bool pos = apply(op, sa.pos, sb.pos), neg = apply(op, sa.neg, sb.neg);
    bool expect = pos != neg;
    if (o.point_location) {
      auto side = r.bounded_side(c);
      auto want = expect ? CGAL::ON_BOUNDARY : pos ? CGAL::ON_BOUNDED_SIDE : CGAL::ON_UNBOUNDED_SIDE;
      if (side != want) {
        bad("point-location", "bounded_side(" + gen::fmt(c) + ") is " + side_name(side) + ", expected " + side_name(want));
      }
    }
    auto cov = res.kind == 2 ? res.g.containing(c) : std::vector<std::size_t>{};
    if (expect && cov.empty()) {
      bad("missing-face", "the boundary point " + gen::fmt(c) + " is not covered");
    }
    if (!expect && !cov.empty()) {
      bad("extra-face", "the point " + gen::fmt(c) + " is covered but the expected region is " + yn(pos) + " on both sides");
    }
  };
  for (int k = 0; k < o.surface_samples; ++k) {
    const auto& x = (k % 2 == 0 && a.kind == 2) || b.kind != 2 ? a : b;
    if (x.kind == 2) {
      surface_point(x);
    }
  }

  // 3. Points in space.
  CGAL::Bbox_3 bb = a.g.bbox() + b.g.bbox();
  if (a.kind != 2 && b.kind != 2) {
    bb = CGAL::Bbox_3{0, 0, 0, 1, 1, 1};
  }
  for (int k = 0; k < o.space_samples; ++k) {
    auto co = [&](double lo, double hi) { return FT{lo + (hi - lo) * (double(s.below(1200)) - 100) / 1000}; };
    P3 c{co(bb.xmin(), bb.xmax()), co(bb.ymin(), bb.ymax()), co(bb.zmin(), bb.zmax())};
    auto in = [&](const Operand& x) -> int {
      if (x.kind != 2) {
        return x.kind;
      }
      if (!x.g.containing(c).empty()) {
        return 2;
      }
      auto i = x.g.inside(c);
      return i ? (*i ? 1 : 0) : 3;
    };
    int ia = in(a), ib = in(b);
    if (ia == 2 || ib == 2) {
      continue;
    }
    if (ia == 3 || ib == 3) {
      throw std::runtime_error("oracle: an operand is not a region");
    }
    int ir = in(res);
    ++n;
    bool e = apply(op, ia == 1, ib == 1);
    if (o.point_location) {
      auto side = r.bounded_side(c);
      auto want = e ? CGAL::ON_BOUNDED_SIDE : CGAL::ON_UNBOUNDED_SIDE;
      if (side != want) {
        bad("point-location", "bounded_side(" + gen::fmt(c) + ") is " + side_name(side) + ", expected " + side_name(want));
      }
    }
    if (ir == 3) {
      bad("malformed", "the result is not the boundary of a region (winding number) at " + gen::fmt(c));
    }
    if (ir == 2) {
      bad("off-surface", "the result's boundary passes through " + gen::fmt(c) + ", which is on neither operand's boundary");
    }
    if ((ir == 1) != e) {
      bad("membership", "the point " + gen::fmt(c) + " should be " + yn(e) + " but is " + yn(ir == 1));
    }
  }
  if (o.self_intersections && res.kind == 2) {
    auto v = validity(res.m, true, true);
    ++n;
    if (!v.empty()) {
      bad("malformed", v);
    }
  }
  return n;
}

// Whether the two surfaces have a common point.
inline bool surfaces_meet(const Operand& a, const Operand& b) {
  if (a.kind != 2 || b.kind != 2 || !CGAL::do_overlap(a.g.bbox(), b.g.bbox())) {
    return false;
  }
  std::vector<P3> pa, pb, all;
  for (std::size_t i = 0; i < 3 * a.g.size(); ++i) {
    pa.push_back(a.g.v(i / 3, int(i % 3)));
  }
  for (std::size_t i = 0; i < 3 * b.g.size(); ++i) {
    pb.push_back(b.g.v(i / 3, int(i % 3)));
  }
  all = pa;
  all.insert(all.end(), pb.begin(), pb.end());
  Norm norm{all};
  norm.apply(pa);
  norm.apply(pb);
  CGAL::Bbox_3 whole;
  for (const auto& p : pb) {
    whole += box(p);
  }
  for (std::size_t i = 0; i < pa.size(); i += 3) {
    auto ba = box(pa[i]) + box(pa[i + 1]) + box(pa[i + 2]);
    if (!CGAL::do_overlap(ba, whole)) {
      continue;
    }
    for (std::size_t j = 0; j < pb.size(); j += 3) {
      auto bb = box(pb[j]) + box(pb[j + 1]) + box(pb[j + 2]);
      if (CGAL::do_overlap(ba, bb) &&
          CGAL::do_intersect(Triangle{pa[i], pa[i + 1], pa[i + 2]}, Triangle{pb[j], pb[j + 1], pb[j + 2]})) {
        return true;
      }
    }
  }
  return false;
}

// Whether x and y bound the same set: every sampled point of either boundary is on the other with the same orientation.
// Empty string, or what differs.
inline std::string same_set(pbt::Source& s, const Operand& x, const Operand& y, int samples_per_face = 1) {
  if (x.kind != y.kind) {
    const char* n[] = {"empty", "full", "boundary-defined"};
    return std::string{"one is "} + n[x.kind] + ", the other is " + n[y.kind];
  }
  if (x.kind != 2) {
    return "";
  }
  auto half = [&](const Operand& u, const Operand& v, const char* which) -> std::string {
    for (std::size_t i = 0; i < u.g.size(); ++i) {
      const auto &p = u.g.v(i, 0), &q = u.g.v(i, 1), &t = u.g.v(i, 2);
      auto nrm = CGAL::cross_product(q - p, t - p);
      for (int k = 0; k < samples_per_face; ++k) {
        P3 c = bary(p, q, t, int(s.range(1, 13)), int(s.range(1, 13)), int(s.range(1, 13)));
        Sides sd;  // not on it
        if (!v.g.containing(c).empty()) {
          sd = sides_at(v, c, nrm);
        }
        if (!sd.on || sd.bad || sd.flipped) {
          return std::string{"the boundary point "} + gen::fmt(c) + " of the " + which + " is " +
                 (sd.bad ? "crossed by" : !sd.on ? "not on" : "reversed in") + " the other's boundary";
        }
      }
    }
    return "";
  };
  auto r = half(x, y, "first");
  if (r.empty()) {
    r = half(y, x, "second");
  }
  if (r.empty()) {
    const auto& o = x.g.v(0, 0);
    FT vx = x.g.volume6_about(o), vy = y.g.volume6_about(o);
    if (vx != vy) {
      r = "the volumes differ: " + gen::fmt(vx) + " / 6 and " + gen::fmt(vy) + " / 6";
    }
  }
  return r;
}

// The faces of a region with their data, independent of numbering: sorted texts of exact coordinates.
inline std::vector<std::string> face_list(const Region& r) {
  std::vector<std::string> out;
  if (r.is_empty()) {
    out.push_back("EMPTY");
  }
  if (r.is_full()) {
    out.push_back("FULL");
  }
  const auto& b = r.boundary();
  std::vector<std::string> pt;
  for (auto v : b.vertices()) {
    std::ostringstream o;
    const auto& e = b.point(v).exact();
    o << e.x() << ' ' << e.y() << ' ' << e.z();
    pt.push_back(o.str());
  }
  for (auto fi : b.faces()) {
    const auto& f = b.face(fi);
    std::array<std::string, 3> q{pt.at(f[0].idx()), pt.at(f[1].idx()), pt.at(f[2].idx())};
    q = std::min({q, {q[1], q[2], q[0]}, {q[2], q[0], q[1]}});
    out.push_back("(" + q[0] + ") (" + q[1] + ") (" + q[2] + ") d=" + std::to_string(b.data(fi).v));
  }
  std::sort(out.begin(), out.end());
  return out;
}
inline std::string first_difference(const std::vector<std::string>& a, const std::vector<std::string>& b) {
  for (std::size_t i = 0; i < std::max(a.size(), b.size()); ++i) {
    if (i >= a.size() || i >= b.size() || a[i] != b[i]) {
      return std::to_string(a.size()) + " and " + std::to_string(b.size()) + " faces; first difference: " +
             (i < a.size() ? a[i] : "(none)") + " / " + (i < b.size() ? b[i] : "(none)");
    }
  }
  return "";
}

}  // namespace oracle
