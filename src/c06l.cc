// C06 on large operands: the data of the faces of terrains.
#include "terrains.h"

PBT_SUB(terrains, 96, 1200,
        "solids under or over terrains of 1000 to 150000 faces (as in C01) with unique data on each face, three operators: each face of a "
        "result bears the data of the operand's face that its centre lies in (looked up by its position); non-trivial: more than 10000 "
        "faces looked up") {
  auto& s = c.src;
  auto [a, b, ma, mb] = gen_terrains(c);
  Builder bld{Region{gen::to_soup(ma)}, Region{gen::to_soup(mb)}};
  constexpr double eps = 1e-5;
  std::uint64_t n = 0, skipped = 0;
  for (int k = 0; k < 3; ++k) {
    auto op = op_of(int(s.below(16)));
    auto r = s.flip() ? bld(op, s.flip()) : bld(op);
    if (r.is_empty() || r.is_full()) {
      continue;
    }
    const auto& m = r.boundary();
    for (auto fi : m.faces()) {
      std::array<std::array<double, 3>, 3> q;
      for (std::size_t i = 0; i < 3; ++i) {
        q[i] = dpoint(m.point(m.face(fi)[i]));
      }
      auto look = sight(q, eps);
      auto ca = std::fabs(a.inside(look.centre)), cb = std::fabs(b.inside(look.centre));
      if (look.thin || std::max(ca, cb) < 10 * eps) {
        ++skipped;
        continue;
      }
      auto want = ca < cb ? a.face_at(look.centre, 1e-8) : b.face_at(look.centre, 1e-8);
      if (want < 0) {
        continue;  // a wall
      }
      want += ca < cb ? 0 : kSecond;
      ++n;
      if (m.data(fi).v != want) {
        pbt::fail("data", "a face at (" + std::to_string(look.centre[0]) + ", " + std::to_string(look.centre[1]) + ", " +
                              std::to_string(look.centre[2]) + ") has the data " + std::to_string(m.data(fi).v) + ", expected " + std::to_string(want));
      }
    }
  }
  c.nontrivial = n > 10000;
  label_size(c, ma.f.size());
  c.label("faces too thin to check", skipped);
  c.evals(n);
}

int main(int argc, char** argv) {
  pbt::Engine e;
  e.batch = 1;
  return e.main(argc, argv);
}
