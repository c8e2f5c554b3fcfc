// C04 on large operands: expressions over three terrains.
#include "terrains.h"

PBT_SUB(terrains, 80, 1200,
        "three solids under or over terrains of 1000 to 30000 faces (the third may be the first with another base, so that surfaces coincide) and "
        "two expressions such as op(op(A, B), op(B, C)), with several operands used twice: the result is closed and each of its faces separates "
        "the inside of the expression's set from its outside; non-trivial: more than 5000 result faces") {
  auto& s = c.src;
  auto [a, b, ma, mb] = gen_terrains(c, s.one_of<int>({30, 60, c.tier == "thorough" ? 85 : 60}));
  auto d = s.flip() ? a : gen_terrain(s, a.n, s.one_of({0.0, 0.05}), 2.0, s.flip());
  d.base *= s.one_of({0.75, 1.25});
  if (d.h != a.h) {
    d.x0 = double(s.around(6)) + 0.140625;
    d.y0 = double(s.around(6)) + 0.828125;
  }
  auto md = d.mesh();
  set_data(md, 2 * kSecond);
  label_size(c, ma.f.size());
  const Region in[] = {Region{gen::to_soup(ma)}, Region{gen::to_soup(mb)}, Region{gen::to_soup(md)}};
  for (int round = 0; round < 2; ++round) {
    std::string what;
    // A node: a region and the bits of its set, one for each combination of the three.
    struct Node {
      Region r;
      unsigned set{};
      std::string text;
    };
    auto leaf = [&](int i) {
      unsigned set = 0;
      for (unsigned k = 0; k < 8; ++k) {
        set |= ((k >> i) & 1U) << k;
      }
      return Node{in[i], set, std::string(1, char('A' + i))};
    };
    auto combine = [&](const Node& x, const Node& y) {
      auto op = op_of(int(s.range(1, 14)));
      unsigned set = 0;
      for (unsigned k = 0; k < 8; ++k) {
        set |= unsigned(apply(op, ((x.set >> k) & 1U) != 0, ((y.set >> k) & 1U) != 0)) << k;
      }
      Builder bld{x.r, y.r};
      return Node{bld(op, s.flip()), set, std::string{name(op)} + "(" + x.text + ", " + y.text + ")"};
    };
    int i = int(s.below(3)), j = (i + 1 + int(s.below(2))) % 3, k = 3 - i - j;
    auto x = combine(leaf(i), leaf(j));
    auto y = s.weighted({2, 2, 1});
    auto z = y == 0 ? combine(x, leaf(k)) : y == 1 ? combine(x, combine(leaf(j), leaf(k))) : combine(combine(leaf(k), x), leaf(i));
    c.describe(z.text + "\n");
    std::vector<char> in_set;
    for (unsigned q = 0; q < 8; ++q) {
      in_set.push_back(char((z.set >> q) & 1U));
    }
    if (z.r.is_empty() || z.r.is_full()) {
      if ((z.r.is_empty() && in_set[0] != 0) || (z.r.is_full() && in_set[0] == 0)) {
        pbt::fail("kind", z.text + " is empty or full");
      }
      continue;
    }
    auto st = check_surface(z.r, {&a, &b, &d}, in_set, z.text, Edges::CLOSED);
    c.evals(st.checked);
    c.label("faces too thin or too near another surface to check", st.skipped);
    c.nontrivial |= z.r.boundary().num_faces() > 5000;
  }
}

int main(int argc, char** argv) {
  pbt::Engine e;
  e.batch = 1;
  return e.main(argc, argv);
}
