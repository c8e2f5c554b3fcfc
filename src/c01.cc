// C01: each of the 16 operators yields exactly the regularized set it denotes.
#include "boolean_common.h"

PBT_SUB(operators, 1200, 20000,
        "two valid closed boundary meshes (voxel, star, nested and tetrahedral solids; shared grids, re-triangulations, copies, "
        "complements, inscribed and touching solids; exact affine maps; duplicate and unused vertices) and all 16 operators, "
        "decided per result face, per operand surface point and per space point against exact membership in both operands; "
        "non-trivial: the operands' surfaces meet") {
  auto p = make_pair(c);
  Builder bld{p.a.region(), p.b.region()};
  std::uint64_t n = 0;
  for (int i = 0; i < 16; ++i) {
    Check_options o;
    o.point_location = i == 10 || i == 11 || i == 12 || i == 1;
    o.surface_samples = 16;
    n += check_result(c.src, p.a, p.b, op_of(i), bld(op_of(i)), o);
  }
  c.evals(n);
}

int main(int argc, char** argv) {
  pbt::Engine e;
  return e.main(argc, argv);
}
