// Find_defects behind a compilation firewall.
#pragma once
#include <array>
#include <string>
#include <vector>

#include "kig.h"

struct Defect_report {
  std::vector<std::array<std::size_t, 2>> boundary_edges, inconsistent_edges, non_manifold_edges;
  std::vector<std::size_t> isolated_vertices, non_manifold_vertices;
  std::vector<std::size_t> trivial_degenerate_faces, non_trivial_degenerate_faces, overlapping_faces;
  Soup soup;  // the mesh the indices refer to
};
Defect_report find_defects(const Soup& s);
