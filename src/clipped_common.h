// Two solids clipped by a common convex region.
#pragma once
#include "boolean_common.h"
#include "open_gen.h"

struct Clipped_case {
  Operand a, b;    // before clipping
  Operand oa, ob;  // after clipping; at least one is open if anything was cut
  std::string relation;
  bool meet{}, cut{};
};

// A pair of solids, of which one or both are clipped by half-spaces; a closed one lies inside of them.
inline Clipped_case make_clipped_case(pbt::Case& c, gen::Pair_options po = {}) {
  auto& s = c.src;
  if (c.tier == "thorough") {
    po.big = s.chance(1, 6);
  }
  auto pr = gen::gen_pair(s, po);
  bool both = s.chance(2, 3);
  auto& mb = pr.b;
  if (!both && s.chance(2, 3)) {
    for (auto& q : pr.a.p) {
      q = P3{FT{2} * q.x(), FT{2} * q.y(), FT{2} * q.z()};
    }
  }
  auto cx = gen::gen_convex(s, s.flip() || !both ? pr.a : pr.b, both ? nullptr : &mb);
  auto ca = gen::clip(pr.a, cx);
  auto cb = both ? gen::clip(mb, cx) : gen::Clip_result{mb, 0, 0};
  if (ca.m.f.empty() || cb.m.f.empty()) {
    c.label("DISCARDED: nothing left of an operand");
    throw pbt::Discard{};
  }
  if (!both) {
    // A face of the closed operand on the convex region's boundary has an outside beyond it; whether that is inside the
    // other operand is not to be told if that had a face there as well.
    if (ca.dropped > 0) {
      for (const auto& f : mb.f) {
        for (const auto& h : cx) {
          if (h.at(mb.p[f[0]]) == 0 && h.at(mb.p[f[1]]) == 0 && h.at(mb.p[f[2]]) == 0) {
            throw pbt::Discard{};
          }
        }
      }
    }
  }
  auto oam = s.chance(1, 3) ? gen::relabelled(s, ca.m) : ca.m, obm = s.chance(1, 3) ? gen::relabelled(s, cb.m) : cb.m;
  bool swap = s.flip();
  if (swap) {
    std::swap(pr.a, pr.b);
    std::swap(oam, obm);
  }
  Clipped_case r{Operand{pr.a}, Operand{pr.b}, Operand{oam}, Operand{obm}, pr.relation, false, false};
  c.describe(pr.relation + ", " + std::to_string(cx.size()) + " half-spaces, " + (both ? "both open" : "one open") + "\n");
  c.describe(describe_pair(r.oa, r.ob));
  if (!validity(pr.a).empty() || !validity(pr.b).empty() || !validity(oam, false).empty() || !validity(obm, false).empty()) {
    c.label("DISCARDED generator: " + validity(pr.a) + validity(pr.b) + validity(oam, false) + validity(obm, false));
    throw pbt::Discard{};
  }
  r.meet = surfaces_meet(r.oa, r.ob);
  r.cut = ca.cut + cb.cut > 0;
  c.nontrivial = r.meet && r.cut;
  c.label(std::string{both ? "both open" : "one open"} + (r.cut ? ", cut" : ", not cut") + (r.meet ? " (meet)" : " (apart)"));
  return r;
}

// A point inside the convex region: between points of the clipped surfaces.
inline P3 inner_point(pbt::Source& s, const Operand& oa, const Operand& ob) {
  std::array<FT, 3> x{};
  int w = 0;
  for (int k = 0; k < 4; ++k) {
    const auto& o = k % 2 ? oa : ob;
    auto i = s.below(o.g.size());
    int u = int(s.range(1, 9));
    w += u * 3;
    for (int j = 0; j < 3; ++j) {
      const auto& q = o.g.v(i, j);
      x[0] += FT{u} * q.x();
      x[1] += FT{u} * q.y();
      x[2] += FT{u} * q.z();
    }
  }
  return P3{x[0] / FT{w}, x[1] / FT{w}, x[2] / FT{w}};
}

// A pair of closed solids as for C01, or in some cases of clipped ones.
inline Case_pair make_closed_or_clipped_pair(pbt::Case& c, gen::Pair_options po = {}) {
  if (!c.src.chance(1, 5)) {
    return make_pair(c, po);
  }
  auto p = make_clipped_case(c, po);
  return {p.relation + ", clipped", p.oa, p.ob, p.meet};
}
