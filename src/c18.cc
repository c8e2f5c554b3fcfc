// C18: the defect finder reports exactly the defects a mesh has.
#include "defect_gen.h"
#include "kig_defects.h"

using namespace oracle;

namespace {

using E = std::array<std::size_t, 2>;

template <class T>
std::string show_list(const std::vector<T>& v) {
  std::string r = "{";
  for (std::size_t i = 0; i < v.size() && i < 20; ++i) {
    if constexpr (std::is_same_v<T, E>) {
      r += " " + std::to_string(v[i][0]) + "-" + std::to_string(v[i][1]);
    } else {
      r += " " + std::to_string(v[i]);
    }
  }
  return r + " }";
}

template <class T>
void same_list(const char* what, std::vector<T> got, std::vector<T> want) {
  if constexpr (std::is_same_v<T, E>) {
    for (auto& e : got) {
      std::sort(e.begin(), e.end());
    }
    for (auto& e : want) {
      std::sort(e.begin(), e.end());
    }
  }
  std::sort(got.begin(), got.end());
  std::sort(want.begin(), want.end());
  if (got != want) {
    pbt::fail(what, std::string{what} + ": reported " + show_list(got) + ", expected " + show_list(want));
  }
}

// Whether the faces at a vertex, given by the edges opposite to it, form one open or closed fan.
bool fan(const std::vector<std::array<int, 2>>& link) {
  std::map<int, std::vector<int>> adj;
  std::set<std::array<int, 2>> seen;
  for (auto e : link) {
    auto k = e;
    std::sort(k.begin(), k.end());
    if (!seen.insert(k).second) {
      return false;
    }
    adj[e[0]].push_back(e[1]);
    adj[e[1]].push_back(e[0]);
  }
  for (const auto& [v, n] : adj) {
    if (n.size() > 2) {
      return false;
    }
  }
  std::set<int> reached{adj.begin()->first};
  std::vector<int> todo{adj.begin()->first};
  while (!todo.empty()) {
    int v = todo.back();
    todo.pop_back();
    for (int w : adj[v]) {
      if (reached.insert(w).second) {
        todo.push_back(w);
      }
    }
  }
  return reached.size() == adj.size();
}

// Compares the report on `input`, which is some form of m, with what m's defects are.
void judge(pbt::Case& c, const gen::M& m, const gen::M& input) {
  auto r = find_defects(gen::to_soup(input));
  auto g = gen::from_soup(r.soup);

  // The mesh the report refers to: the same one, with coincident vertices merged.
  auto canon = canonical(m);
  std::vector<int> id(m.p.size(), -1);
  std::vector<int> first;
  for (std::size_t i = 0; i < m.p.size(); ++i) {
    if (canon[i] == int(i)) {
      id[i] = int(first.size());
      first.push_back(int(i));
    } else {
      id[i] = id[canon[i]];
    }
  }
  if (g.p.size() != first.size() || g.f.size() != m.f.size()) {
    pbt::fail("merge", "the merged mesh has " + std::to_string(g.p.size()) + " vertices and " + std::to_string(g.f.size()) +
                           " faces, expected " + std::to_string(first.size()) + " and " + std::to_string(m.f.size()));
  }
  // Its vertices may be numbered in any way: go by position.
  std::map<P3, int, decltype(&point_less)> at{&point_less};
  for (std::size_t i = 0; i < g.p.size(); ++i) {
    if (!at.emplace(g.p[i], int(i)).second) {
      pbt::fail("merge", "the point (" + gen::fmt(g.p[i]) + ") remains twice");
    }
  }
  for (std::size_t i = 0; i < m.f.size(); ++i) {
    std::array<int, 3> w{};
    for (int k = 0; k < 3; ++k) {
      auto it = at.find(m.p[m.f[i][k]]);
      if (it == at.end()) {
        pbt::fail("merge", "a vertex is lost");
      }
      w[k] = it->second;
    }
    bool same = false;
    for (int k = 0; k < 3; ++k) {
      same = same || (g.f[i] == std::array<int, 3>{w[k], w[(k + 1) % 3], w[(k + 2) % 3]});
    }
    if (!same) {
      pbt::fail("merge", "face " + std::to_string(i) + " is not the original one");
    }
  }

  // Unused vertices.
  std::vector<std::size_t> isolated, trivial, flat, nm_v;
  std::vector<bool> used(g.p.size());
  for (const auto& f : g.f) {
    for (int v : f) {
      used[v] = true;
    }
  }
  for (std::size_t i = 0; i < g.p.size(); ++i) {
    if (!used[i]) {
      isolated.push_back(i);
    }
  }
  same_list("isolated vertices", r.isolated_vertices, isolated);

  // Degenerate faces.
  std::vector<bool> proper(g.f.size());   // three distinct vertices
  std::vector<bool> regular(g.f.size());  // not degenerate
  for (std::size_t i = 0; i < g.f.size(); ++i) {
    const auto& f = g.f[i];
    proper[i] = f[0] != f[1] && f[1] != f[2] && f[2] != f[0];
    if (!proper[i]) {
      trivial.push_back(i);
      continue;
    }
    auto u = g.p[f[1]] - g.p[f[0]], v = g.p[f[2]] - g.p[f[0]];
    auto x = CGAL::cross_product(u, v);
    regular[i] = x.x() != 0 || x.y() != 0 || x.z() != 0;
    if (!regular[i]) {
      flat.push_back(i);
    }
  }
  same_list("trivial degenerate faces", r.trivial_degenerate_faces, trivial);
  same_list("non-trivial degenerate faces", r.non_trivial_degenerate_faces, flat);

  // Edges and vertices, over the faces with three distinct vertices.
  std::map<E, std::array<int, 2>> edges;
  std::map<int, std::vector<std::array<int, 2>>> link;
  for (std::size_t i = 0; i < g.f.size(); ++i) {
    if (!proper[i]) {
      continue;
    }
    const auto& f = g.f[i];
    for (int k = 0; k < 3; ++k) {
      auto a = std::size_t(f[k]), b = std::size_t(f[(k + 1) % 3]);
      ++edges[E{std::min(a, b), std::max(a, b)}][a < b ? 0 : 1];
      link[f[k]].push_back({f[(k + 1) % 3], f[(k + 2) % 3]});
    }
  }
  std::vector<E> boundary, inconsistent, nm_e;
  for (const auto& [e, k] : edges) {
    int total = k[0] + k[1];
    if (total == 1) {
      boundary.push_back(e);
    } else if (total == 2 && (k[0] == 2 || k[1] == 2)) {
      inconsistent.push_back(e);
    } else if (total > 2) {
      nm_e.push_back(e);
    }
  }
  same_list("boundary edges", r.boundary_edges, boundary);
  same_list("inconsistent edges", r.inconsistent_edges, inconsistent);
  same_list("non-manifold edges", r.non_manifold_edges, nm_e);
  for (const auto& [v, l] : link) {
    if (!fan(l)) {
      nm_v.push_back(std::size_t(v));
    }
  }
  same_list("non-manifold vertices", r.non_manifold_vertices, nm_v);

  // Overlapping faces.
  std::vector<CGAL::Bbox_3> bb;
  for (const auto& f : g.f) {
    bb.push_back(box(g.p[f[0]]) + box(g.p[f[1]]) + box(g.p[f[2]]));
  }
  std::vector<int> listed(g.f.size());
  for (auto i : r.overlapping_faces) {
    if (i >= g.f.size() || ++listed[i] > 1) {
      pbt::fail("overlap", "face " + std::to_string(i) + " is listed twice or does not exist");
    }
  }
  std::vector<bool> overlaps(g.f.size());
  std::uint64_t pairs = 0;
  std::vector<std::size_t> order(g.f.size());
  for (std::size_t i = 0; i < order.size(); ++i) {
    order[i] = i;
  }
  std::sort(order.begin(), order.end(), [&](std::size_t i, std::size_t j) { return bb[i].xmin() < bb[j].xmin(); });
  for (auto it = order.begin(); it != order.end(); ++it) {
    for (auto jt = std::next(it); jt != order.end() && bb[*jt].xmin() <= bb[*it].xmax(); ++jt) {
      auto i = std::min(*it, *jt), j = std::max(*it, *jt);
      if (!regular[i] || !regular[j] || !CGAL::do_overlap(bb[i], bb[j])) {
        continue;
      }
      ++pairs;
      if (bad_pair(g, g.f[i], g.f[j])) {
        overlaps[i] = overlaps[j] = true;
        if (listed[i] + listed[j] == 0) {
          pbt::fail("overlap", "faces " + std::to_string(i) + " and " + std::to_string(j) + " overlap, and neither is listed");
        }
      }
    }
  }
  bool any_overlap = false;
  for (std::size_t i = 0; i < g.f.size(); ++i) {
    any_overlap = any_overlap || overlaps[i];
    if (listed[i] != 0 && !overlaps[i]) {
      pbt::fail("overlap", "face " + std::to_string(i) + " is listed but meets other faces only at shared vertices and edges");
    }
  }
  auto mark = [&](const char* l, bool b) {
    if (b) {
      c.label(l);
      c.nontrivial = true;
    }
  };
  mark("isolated vertices", !isolated.empty());
  mark("trivial degenerate faces", !trivial.empty());
  mark("non-trivial degenerate faces", !flat.empty());
  mark("boundary edges", !boundary.empty());
  mark("inconsistent edges", !inconsistent.empty());
  mark("non-manifold edges", !nm_e.empty());
  mark("non-manifold vertices", !nm_v.empty());
  mark("overlapping faces", any_overlap);
  if (!c.nontrivial) {
    c.label("no defect");
  }
  if (g.p.size() != m.p.size()) {
    c.label("merged vertices");
  }
  c.evals(pairs + g.p.size() + g.f.size() + edges.size());
}

}  // namespace

PBT_SUB(defects, 30000, 400000,
        "closed solids, sheets, fans, lattice face soups and overlaid solids with up to five damages of 12 kinds (removed, flipped, "
        "duplicated, degenerate, touching, random faces; pinched, split, moved, unused, duplicated vertices), affinely mapped "
        "and relabelled; every reported list against an independent exact oracle; non-trivial: the mesh has a defect") {
  std::string what;
  auto m = gen::damaged_mesh(c, what);
  c.describe("damages:" + what + "\n" + gen::show(m));
  judge(c, m, c.src.chance(1, 4) ? gen::represented(c.src, m) : m);
}

PBT_SUB(large, 150, 2500,
        "closed terrains of 1000 to 150000 faces in any order, most with another mesh next to or across them, with up to six of the damages; "
        "every reported list against the same oracle; non-trivial: the mesh has a defect") {
  std::string what;
  auto m = gen::large_damaged_mesh(c, what);
  c.describe("damages:" + what + "\n");
  c.label(m.f.size() > 65536 ? "more than 65536 faces" : m.f.size() > 10000 ? "more than 10000 faces" : "smaller");
  judge(c, m, m);
}

PBT_SUB(crowds, 400, 8000,
        "up to 515 faces around one edge (a book) or vertex (a fan, open or closed), oriented alike, in turn or at random, with up to three of the "
        "damages and any order of vertices and faces; every reported list against the same oracle; non-trivial: the mesh has a defect") {
  std::string what;
  auto m = gen::crowded_mesh(c.src, what);
  c.describe("damages:" + what + "\n");
  c.label(m.f.size() > 255 ? "more than 255 faces" : "smaller");
  judge(c, m, m);
}

int main(int argc, char** argv) {
  pbt::Engine e;
  return e.main(argc, argv);
}
