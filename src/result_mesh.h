// Whether the boundary of a result is a valid mesh.
#pragma once
#include "boolean_common.h"

inline void check_result_mesh(Op op, const Region& r) {
  auto bad = [&](const std::string& k, const std::string& m) { pbt::fail(k, std::string{"op "} + name(op) + ": " + m); };
  const auto& b = r.boundary();
  std::vector<char> used(b.num_vertices());
  if (b.num_faces() == 0) {
    bad("kind", "a region with a boundary has no faces");
  }
  for (auto fi : b.faces()) {
    const auto& f = b.face(fi);
    for (int k = 0; k < 3; ++k) {
      if (f[k].idx() >= b.num_vertices()) {
        bad("index", "a face refers to vertex " + std::to_string(f[k].idx()) + " of " + std::to_string(b.num_vertices()));
      }
      used[f[k].idx()] = 1;
      if (f[k] == f[(k + 1) % 3]) {
        bad("index", "a face has a repeated vertex");
      }
    }
  }
  auto m = gen::from_soup(b);
  for (std::size_t v = 0; v < used.size(); ++v) {
    if (!used[v]) {
      bad("unused-vertex", "vertex " + std::to_string(v) + " (" + gen::fmt(m.p[v]) + ") is not used");
    }
  }
  auto can = canonical(m);
  for (std::size_t v = 0; v < can.size(); ++v) {
    if (can[v] != int(v)) {
      bad("coincident-vertices", "two vertices are at " + gen::fmt(m.p[v]));
    }
  }
  // A face and its opposite copy have the same three vertices, so both are caught as a repeated face.
  auto v = validity(m, true, true);
  if (!v.empty()) {
    bad("invalid", v);
  }
}
