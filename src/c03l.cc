// C03 on large operands: terrains that cancel, agree or share large parts of their surfaces.
#include "terrains.h"

PBT_SUB(terrains, 100, 1500,
        "a solid under or over a terrain of 1000 to 150000 faces and another one with the same terrain: itself (in another order), its "
        "complement, one with a deeper or shallower base, or what remains above it, and the 16 operators: results that are the empty set or "
        "the universe must be so, the others must have the faces and the volume of theirs; non-trivial: more than 5000 faces") {
  auto& s = c.src;
  int n = int(s.one_of<std::int64_t>({s.range(10, 40), s.range(40, 80), c.tier == "thorough" || s.chance(1, 3) ? s.range(80, 190) : s.range(40, 120)}));
  auto a = gen_terrain(s, n, s.one_of({0.0, 0.03, 1.0}), s.one_of({0.0, 1.5, 6.0}), s.flip());
  auto b = a;
  auto kind = s.below(4);
  bool flip = false;  // the second one is the complement of b
  if (kind == 1) {
    flip = true;
  } else if (kind == 2) {
    b.base *= s.flip() ? 1.5 : 0.75;
  } else if (kind == 3) {
    b.above = !b.above;
    b.base = -b.base;
  }
  auto ma = a.mesh(), mb = b.mesh();
  if (flip) {
    mb = gen::inverted(mb);
  }
  set_data(ma, 0);
  set_data(mb, kSecond);
  auto order = s.below(1 << 16);
  if (order != 0) {
    shuffle(ma, order);
    shuffle(mb, order + 1);
  }
  if (s.flip()) {  // other numbers for the vertices
    auto k = int(mb.p.size());
    std::reverse(mb.p.begin(), mb.p.end());
    for (auto& f : mb.f) {
      for (auto& v : f) {
        v = k - 1 - v;
      }
    }
  }
  label_size(c, ma.f.size());
  const char* names[] = {"the same", "its complement", "one with another base", "what is on the other side"};
  c.describe("a terrain of " + std::to_string(n) + " cells a side and " + names[kind] + "\n");
  c.label(names[kind]);
  c.nontrivial = ma.f.size() > 5000;
  Builder bld{Region{gen::to_soup(ma)}, Region{gen::to_soup(mb)}};
  // The volumes of: neither (0, unbounded), in A only, in B only, in both; B before it is complemented.
  double va = a.volume(), vb = b.volume();
  double both = kind == 3 ? 0 : std::min(va, vb);
  double part[4] = {0, va - both, vb - both, both};
  for (int i = 0; i < 16; ++i) {
    auto op = op_of(i);
    std::vector<char> in_set(4);
    bool none = true, all = true;
    for (int k = 0; k < 4; ++k) {
      bool x = (k & 1) != 0, y = ((k & 2) != 0) != flip;
      in_set[std::size_t(k)] = char(apply(op, x, y));
      if (k == 0 || part[k] > 0.5) {
        none = none && in_set[std::size_t(k)] == 0;
        all = all && in_set[std::size_t(k)] != 0;
      }
    }
    auto where = std::string{"op "} + name(op);
    auto r = bld(op, !s.chance(1, 4));
    if (r.is_empty() != none || r.is_full() != all || (r.is_empty_or_full() && r.boundary().num_faces() != 0)) {
      pbt::fail("kind", where + ": the result is " + (r.is_empty() ? "empty" : r.is_full() ? "the universe" : "a mesh") + ", expected " +
                            (none ? "the empty set" : all ? "the universe" : "a mesh"));
    }
    if (none || all) {
      c.evals(1);
      continue;
    }
    auto st = check_surface(r, {&a, &b}, in_set, where, Edges::MANIFOLD);
    c.evals(st.checked);
    double want = 0;
    for (int k = 1; k < 4; ++k) {
      want += in_set[std::size_t(k)] != in_set[0] ? part[k] : 0;
    }
    want *= in_set[0] != 0 ? -1 : 1;
    if (std::fabs(st.volume - want) > 1e-9 * (st.size + va + vb)) {
      pbt::fail("volume", where + ": the volume is " + std::to_string(st.volume) + ", expected " + std::to_string(want));
    }
  }
}

int main(int argc, char** argv) {
  pbt::Engine e;
  e.batch = 1;
  return e.main(argc, argv);
}
