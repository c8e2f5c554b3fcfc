// C05: open meshes clipped by a common convex region are combined correctly within it.
#include "clipped_common.h"
#include "terrains.h"

#include <functional>

namespace {

// inner: points inside the convex region.
std::uint64_t check_clipped(pbt::Source& s, const std::function<P3()>& inner, const Operand& a, const Operand& b,
                            const Operand& oa, const Operand& ob, Op op, const Region& r) {
  // a, b: closed versions (the oracle); oa, ob: what the code got.
  auto bad = [&](const std::string& k, const std::string& m) { pbt::fail(k, std::string{"op "} + name(op) + ": " + m); };
  auto res = operand_of(r);
  std::uint64_t n = 0;
  if (!r.is_empty_or_full() && r.boundary().num_faces() == 0) {
    bad("kind", "a region with a boundary has no boundary faces");
  }
  if (res.kind == 2) {
    if (auto v = validity(res.m, false, false); !v.empty()) {
      bad("malformed", v);
    }
  }
  for (std::size_t i = 0; i < res.g.size(); ++i) {
    const auto &x = res.g.v(i, 0), &y = res.g.v(i, 1), &z = res.g.v(i, 2);
    auto nrm = CGAL::cross_product(y - x, z - x);
    for (int k = 0; k < 2; ++k) {
      P3 c = bary(x, y, z, int(s.range(1, 9)), int(s.range(1, 9)), int(s.range(1, 9)));
      auto sa = sides_at(a, c, nrm), sb = sides_at(b, c, nrm);
      ++n;
      if (sa.bad || sb.bad) {
        bad("not-split", "a result face crosses an operand's boundary at " + gen::fmt(c));
      }
      if (!sa.on && !sb.on) {
        bad("off-surface", "the point " + gen::fmt(c) + " of a result face is on neither operand's boundary");
      }
      bool pos = apply(op, sa.pos, sb.pos), neg = apply(op, sa.neg, sb.neg);
      if (pos || !neg) {
        bad("wrong-face", "the result face (" + gen::fmt(x) + ") (" + gen::fmt(y) + ") (" + gen::fmt(z) +
                              ") has the expected region " + yn(pos) + " in front of it and " + yn(neg) + " behind it");
      }
    }
  }
  for (int k = 0; k < 24; ++k) {
    const auto& o = k % 2 ? oa : ob;
    auto i = s.below(o.g.size());
    const auto &x = o.g.v(i, 0), &y = o.g.v(i, 1), &z = o.g.v(i, 2);
    P3 c = bary(x, y, z, int(s.range(1, 11)), int(s.range(1, 11)), int(s.range(1, 11)));
    auto nrm = CGAL::cross_product(y - x, z - x);
    auto sa = sides_at(a, c, nrm), sb = sides_at(b, c, nrm);
    if (sa.bad || sb.bad) {
      continue;
    }
    ++n;
    bool pos = apply(op, sa.pos, sb.pos), neg = apply(op, sa.neg, sb.neg);
    bool cov = res.kind == 2 && !res.g.containing(c).empty();
    if ((pos != neg) && !cov) {
      bad("missing-face", "the boundary point " + gen::fmt(c) + " is not covered");
    }
    if ((pos == neg) && cov) {
      bad("extra-face", "the point " + gen::fmt(c) + " is covered but the expected region is " + yn(pos) + " on both sides");
    }
  }
  if (res.kind != 2) {
    // Nothing of the boundary lies in the convex region: all of it is inside or outside.
    for (int k = 0; k < 4; ++k) {
      P3 c = inner();
      if (!a.g.containing(c).empty() || !b.g.containing(c).empty()) {
        continue;
      }
      bool e = apply(op, a.g.inside(c).value(), b.g.inside(c).value());
      ++n;
      if (e != (res.kind == 1)) {
        bad("kind", std::string{"the result is "} + (res.kind == 1 ? "full" : "empty") + " but " + gen::fmt(c) + " should be " + yn(e));
      }
    }
  }
  return n;
}

}  // namespace

PBT_SUB(clipped, 1200, 20000,
        "two meshes inside one box of which at least one is open with all open edges on the box's sides (single height-field "
        "sheets or slabs over the same or different sides, sharing vertices, edges and faces or crossing, or with a closed solid "
        "strictly inside the box), all operators, decided against closed versions of both regions inside the box; non-trivial: "
        "the surfaces meet") {
  auto& s = c.src;
  auto p = gen::gen_clipped_pair(s, c.tier == "thorough" && s.chance(1, 4));
  if (s.chance(1, 3)) {
    p.a.open = gen::relabelled(s, p.a.open);
    p.b.open = gen::relabelled(s, p.b.open);
  }
  c.describe(p.relation + ", box " + std::to_string(p.box.n[0]) + " " + std::to_string(p.box.n[1]) + " " +
             std::to_string(p.box.n[2]) + "\n");
  Operand a{p.a.closed}, b{p.b.closed}, oa{p.a.open}, ob{p.b.open};
  c.describe(describe_pair(oa, ob));
  if (!validity(p.a.closed).empty() || !validity(p.b.closed).empty() || !validity(p.a.open, false).empty() ||
      !validity(p.b.open, false).empty()) {
    c.label("DISCARDED generator: " + p.relation + ": " + validity(p.a.closed) + validity(p.b.closed) + validity(p.a.open, false) +
            validity(p.b.open, false));
    throw pbt::Discard{};
  }
  c.nontrivial = surfaces_meet(oa, ob);
  c.label(p.relation + (c.nontrivial ? " (meet)" : " (apart)"));
  Builder bld{oa.region(), ob.region()};
  if (bld.warnings() != Warnings::NONE) {
    pbt::fail("warning", "warnings reported for meshes clipped by a common convex region");
  }
  auto inner = [&] {
    auto co = [&](int ax) { return FT{p.box.n[ax]} * FT{int(s.range(1, 1018))} / FT{1019}; };
    FT x = co(0), y = co(1), z = co(2);
    return P3{x, y, z};
  };
  std::uint64_t n = 0;
  for (int i = 0; i < 16; ++i) {
    n += check_clipped(s, inner, a, b, oa, ob, op_of(i), bld(op_of(i)));
  }
  c.evals(n);
}

PBT_SUB(clipped_solids, 1200, 20000,
        "two closed solids (all kinds of pairs of C01) of which one or both are clipped by 1 to 8 half-spaces through their "
        "vertices, edges and faces, along the axes or in general position, so that cut faces end on the convex region's boundary; the "
        "other one, if closed, is inside it and may touch its boundary; all operators, and operators of their results, decided against the solids before clipping; "
        "non-trivial: the clipped surfaces meet and at least one face was cut") {
  auto& s = c.src;
  auto p = make_clipped_case(c);
  const auto &a = p.a, &b = p.b, &oa = p.oa, &ob = p.ob;
  Builder bld{oa.region(), ob.region()};
  if (bld.warnings() != Warnings::NONE) {
    pbt::fail("warning", "warnings reported for meshes clipped by a common convex region");
  }
  auto inner = [&] { return inner_point(s, oa, ob); };
  std::uint64_t n = 0;
  std::vector<Region> results;
  for (int i = 0; i < 16; ++i) {
    results.push_back(bld(op_of(i)));
    n += check_clipped(s, inner, a, b, oa, ob, op_of(i), results.back());
  }
  // Results are clipped by the same region, and can be combined further.
  for (int i = 0; i < 3; ++i) {
    Op f = op_of(s.range(1, 14)), g = op_of(s.range(1, 14)), h = op_of(s.below(16));
    const auto &x = results[std::size_t(f)], &y = results[std::size_t(g)];
    Op whole{};
    for (int k = 0; k < 16; ++k) {
      bool same = true;
      for (int t = 0; t < 4; ++t) {
        bool u = (t & 1) != 0, v = (t & 2) != 0;
        same = same && apply(op_of(k), u, v) == apply(h, apply(f, u, v), apply(g, u, v));
      }
      if (same) {
        whole = op_of(k);
      }
    }
    c.describe(std::string{"then "} + name(h) + " of the results of " + name(f) + " and " + name(g) + "\n");
    Builder again{x, y};
    if (again.warnings() != Warnings::NONE) {
      pbt::fail("warning", "warnings reported for results within a common convex region");
    }
    n += check_clipped(s, inner, a, b, oa, ob, whole, again(h));
  }
  c.evals(n);
}

PBT_SUB(terrains, 80, 1200,
        "two open sheets of 500 to 90000 faces over the same square (different grids, crossing along many curves, or the same on part of the "
        "square), six operators: no warning; each face of a result separates the set from its complement (analytic membership), and "
        "open edges are only on the sides of the square; non-trivial: more than 2000 result faces") {
  auto& s = c.src;
  auto [a, b, ma, mb] = gen_sheets(c);
  Builder bld{Region{gen::to_soup(ma)}, Region{gen::to_soup(mb)}};
  if (bld.warnings() != Warnings::NONE) {
    pbt::fail("warning", "warnings reported for meshes clipped by a common convex region");
  }
  for (int k = 0; k < 6; ++k) {
    auto op = op_of(int(s.range(1, 14)));
    std::vector<char> in_set;
    for (int q = 0; q < 4; ++q) {
      in_set.push_back(char(apply(op, (q & 1) != 0, (q & 2) != 0)));
    }
    auto r = bld(op, !s.chance(1, 4));
    if (r.is_empty_or_full()) {
      continue;
    }
    auto st = check_surface(r, {&a, &b}, in_set, std::string{"op "} + name(op), Edges::ON_WALLS);
    c.evals(st.checked);
    c.nontrivial |= r.boundary().num_faces() > 2000;
  }
}

int main(int argc, char** argv) {
  pbt::Engine e;
  return e.main(argc, argv);
}
