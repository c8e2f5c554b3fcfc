#include "kig_defects.h"

#include <kigumi/Find_defects.h>

Defect_report find_defects(const Soup& s) {
  kigumi::Find_defects<K, FD> d{s};
  Defect_report r;
  auto edges = [](const auto& v) {
    std::vector<std::array<std::size_t, 2>> o;
    for (const auto& e : v) {
      o.push_back({e[0].idx(), e[1].idx()});
    }
    return o;
  };
  auto ids = [](const auto& v) {
    std::vector<std::size_t> o;
    for (auto i : v) {
      o.push_back(i.idx());
    }
    return o;
  };
  r.boundary_edges = edges(d.boundary_edges());
  r.inconsistent_edges = edges(d.inconsistent_edges());
  r.non_manifold_edges = edges(d.non_manifold_edges());
  r.isolated_vertices = ids(d.isolated_vertices());
  r.non_manifold_vertices = ids(d.non_manifold_vertices());
  r.trivial_degenerate_faces = ids(d.trivial_degenerate_faces());
  r.non_trivial_degenerate_faces = ids(d.non_trivial_degenerate_faces());
  r.overlapping_faces = ids(d.overlapping_faces());
  r.soup = d.triangle_soup();
  return r;
}
