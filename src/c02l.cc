// C02 on large operands: results of operations on terrains.
#include "result_mesh.h"
#include "terrains.h"

PBT_SUB(terrains, 100, 1200,
        "two solids under or over terrains of 1000 to 150000 faces (as for C01) and two operators: every result is checked in full, as in "
        "`results`; non-trivial: more than 5000 result faces") {
  auto& s = c.src;
  auto [a, b, ma, mb] = gen_terrains(c);
  label_size(c, ma.f.size());
  Builder bld{Region{gen::to_soup(ma)}, Region{gen::to_soup(mb)}};
  for (int k = 0; k < 2; ++k) {
    auto op = op_of(int(s.range(1, 14)));
    auto r = bld(op, !s.chance(1, 4));
    if (r.is_empty_or_full()) {
      continue;
    }
    check_result_mesh(op, r);
    c.evals(r.boundary().num_faces());
    c.nontrivial |= r.boundary().num_faces() > 5000;
  }
}

int main(int argc, char** argv) {
  pbt::Engine e;
  e.batch = 1;
  return e.main(argc, argv);
}
