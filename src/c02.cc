// C02: every result boundary is itself a valid, watertight, regularized mesh.
#include "result_mesh.h"

PBT_SUB(results, 2400, 40000,
        "two valid closed boundary meshes as for C01 and all operators: every result is checked in full for face indices, used "
        "and distinct vertices, degenerate, repeated and cancelling faces, edge balance and all pairwise intersections; "
        "non-trivial: the operands' surfaces meet") {
  auto p = make_pair(c);
  Builder bld{p.a.region(), p.b.region()};
  bool prefer_first = !c.src.chance(1, 4);
  std::uint64_t n = 0;
  for (int i = 1; i < 15; ++i) {
    auto op = op_of(i);
    auto r = bld(op, prefer_first);
    if (r.is_empty_or_full()) {
      continue;
    }
    check_result_mesh(op, r);
    n += r.boundary().num_faces();
  }
  c.evals(n);
}

int main(int argc, char** argv) {
  pbt::Engine e;
  return e.main(argc, argv);
}
