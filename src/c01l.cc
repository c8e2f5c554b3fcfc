// C01 on large operands: two solids under and over terrains, with tens of thousands of faces each.
#include "terrains.h"

PBT_SUB(terrains, 160, 1600,
        "solids under or over terrains of 1000 to 150000 faces, some with only a few large faces, that cross along many curves, along a few or not at all, at offset positions; "
        "six operators with their complements: every result is closed, each of its faces separates the inside from the outside of "
        "the set (analytic membership in both terrains), and the volumes are those of the operands' cells; non-trivial: more than "
        "10000 result faces of an intersection of crossing surfaces") {
  auto& s = c.src;
  auto [a, b, ma, mb] = gen_terrains(c);
  Builder bld{Region{gen::to_soup(ma)}, Region{gen::to_soup(mb)}};
  double va = a.volume(), vb = b.volume(), vi = 0;
  std::uint64_t n_evals = 0, n_skipped = 0;
  struct Which {
    Op op;
    char f[4];  // by (in A) + 2 (in B)
    const char* name;
  };
  const Which which[] = {{Op::INTERSECTION, {false, false, false, true}, "intersection"},
                         {Op::UNION, {false, true, true, true}, "union"},
                         {Op::DIFFERENCE, {false, true, false, false}, "difference"},
                         {Op::SYMMETRIC_DIFFERENCE, {false, true, true, false}, "symmetric difference"},
                         {s.flip() ? Op::D : Op::F, {}, ""},
                         {s.flip() ? Op::X : Op::E, {}, ""}};
  for (auto w : which) {
    if (w.name[0] == 0) {
      w.name = "complement";
      for (int k = 0; k < 4; ++k) {
        bool x = (k & 1) != 0, y = (k & 2) != 0;
        w.f[k] = w.op == Op::D ? !(x && y) : w.op == Op::F ? !x : w.op == Op::X ? !(x || y) : x == y;
      }
    }
    auto r = bld(w.op);
    auto bad = [&](const std::string& what) { pbt::fail("large", std::string{w.name} + ": " + what); };
    if (r.is_empty() || r.is_full()) {
      if (w.op != Op::INTERSECTION && !(w.op == Op::DIFFERENCE) && w.op != Op::D) {
        bad("the result is empty or full");
      }
      continue;
    }
    // Four faces of a symmetric difference meet where the surfaces cross.
    auto edges = w.op != Op::SYMMETRIC_DIFFERENCE && w.op != Op::E ? Edges::MANIFOLD : Edges::CLOSED;
    auto st = check_surface(r, {&a, &b}, {w.f[0], w.f[1], w.f[2], w.f[3]}, w.name, edges);
    double vol = st.volume, size = st.size;
    n_evals += st.checked;
    n_skipped += st.skipped;
    if (w.op == Op::INTERSECTION) {
      vi = vol;
      c.nontrivial = r.boundary().num_faces() > 10000;
    }
    double want = w.f[0] ? 0 : vi * w.f[3] + (va - vi) * w.f[1] + (vb - vi) * w.f[2];
    if (w.f[0]) {
      want = -(vi * !w.f[3] + (va - vi) * !w.f[1] + (vb - vi) * !w.f[2]);
    }
    if (std::fabs(vol - want) > 1e-9 * (size + va + vb)) {
      bad("the volume is " + std::to_string(vol) + ", expected " + std::to_string(want));
    }
  }
  label_size(c, ma.f.size());
  c.label("faces checked", n_evals);
  c.label("faces too thin to check", n_skipped);
  c.evals(n_evals);
}

int main(int argc, char** argv) {
  pbt::Engine e;
  e.batch = 1;
  return e.main(argc, argv);
}
