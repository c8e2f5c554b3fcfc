// C22: adjacency queries report exactly the incident faces.
#include "oracle.h"

#include <kigumi/Triangle_mesh.h>

using namespace oracle;

namespace {

using Mesh = kigumi::Triangle_mesh<K, FD>;
using E = std::array<int, 2>;
E edge(int a, int b) { return a < b ? E{a, b} : E{b, a}; }
kigumi::Edge kedge(int a, int b) { return kigumi::make_edge(Vertex_index{std::size_t(a)}, Vertex_index{std::size_t(b)}); }

struct Connectivity {
  int nv{};
  std::vector<std::array<int, 3>> f;
};

Connectivity generate(pbt::Case& c) {
  auto& s = c.src;
  Connectivity m;
  auto k = s.weighted({3, 3, 2, 1});
  if (k == 0) {  // a solid or two
    auto g = gen::solid(s, c.tier == "thorough" && s.chance(1, 4));
    if (s.chance(1, 3)) {
      gen::append(g, gen::solid(s, false));
    }
    m.nv = int(g.p.size());
    m.f = g.f;
  } else if (k == 1) {  // any faces over a few vertices
    m.nv = int(s.range(3, 12));
    int n = int(s.range(0, 40));
    for (int i = 0; i < n; ++i) {
      int a = int(s.below(m.nv)), b = int(s.below(m.nv)), d = int(s.below(m.nv));
      if (a != b && b != d && d != a) {
        m.f.push_back({a, b, d});
      }
    }
  } else if (k == 2) {  // many faces around a few edges
    m.nv = int(s.range(4, 40));
    int n = int(s.range(1, 60));
    for (int i = 0; i < n; ++i) {
      int a = int(s.below(2)), b = 2 + int(s.below(m.nv - 2));
      m.f.push_back(s.flip() ? std::array<int, 3>{a, 1 - a, b} : std::array<int, 3>{b, 1 - a, a});
    }
  } else {  // large enough to be sorted in parallel
    int nx = int(s.range(10, 40)), ny = int(s.range(10, 40));
    m.nv = (nx + 1) * (ny + 1);
    for (int y = 0; y < ny; ++y) {
      for (int x = 0; x < nx; ++x) {
        int a = y * (nx + 1) + x, b = a + 1, d = a + nx + 1, g = d + 1;
        m.f.push_back({a, b, g});
        m.f.push_back({a, g, d});
      }
    }
  }
  // Repeated and reversed faces.
  if (!m.f.empty()) {
    for (auto n = s.weighted({4, 1, 1}); n > 0; --n) {
      auto f = m.f[s.below(m.f.size())];
      std::rotate(f.begin(), f.begin() + std::ptrdiff_t(s.below(3)), f.end());
      if (s.flip()) {
        std::swap(f[0], f[1]);
      }
      m.f.push_back(f);
    }
  }
  if (s.flip()) {  // unused vertices and another order
    int extra = int(s.below(5));
    std::vector<int> id(std::size_t(m.nv + extra));
    for (std::size_t i = 0; i < id.size(); ++i) {
      id[i] = int(i);
    }
    s.shuffle(id);
    for (auto& f : m.f) {
      for (auto& v : f) {
        v = id[std::size_t(v)];
      }
    }
    m.nv += extra;
    s.shuffle(m.f);
  }
  return m;
}

}  // namespace

PBT_SUB(adjacency, 50000, 200000,
        "solids, random faces over few vertices, faces crowded around two edges, sheets of up to 3200 faces, with repeated and reversed "
        "faces and unused vertices, any thread limit, three random sets of border edges, finalized once or again after more faces "
        "were added, queried directly, from a copy or after a move; every edge and face against brute force; non-trivial: an edge "
        "with other than two faces") {
  auto& s = c.src;
  auto m = generate(c);
  std::string d = std::to_string(m.nv) + " vertices, " + std::to_string(m.f.size()) + " faces:";
  for (std::size_t i = 0; i < m.f.size() && i < 80; ++i) {
    d += " (" + std::to_string(m.f[i][0]) + " " + std::to_string(m.f[i][1]) + " " + std::to_string(m.f[i][2]) + ")";
  }
  c.describe(d + "\n");
  kigumi::Threading_options o;
  o.set_num_threads(s.one_of<std::size_t>({1, 2, 3, 8}));
  kigumi::Threading_context ctx{o};
  Mesh t;
  for (int i = 0; i < m.nv; ++i) {
    t.add_vertex(P3{i, 0, 0});
  }
  bool again = s.chance(1, 4);
  auto half = again ? s.below(m.f.size() + 1) : 0;
  std::size_t added = 0;
  for (const auto& f : m.f) {
    if (again && added == half) {
      t.finalize();
      c.describe("finalized after " + std::to_string(half) + " faces\n");
    }
    t.add_face({Vertex_index{std::size_t(f[0])}, Vertex_index{std::size_t(f[1])}, Vertex_index{std::size_t(f[2])}});
    ++added;
  }
  t.finalize();
  Mesh other;
  const Mesh* q = &t;
  switch (s.weighted({3, 1, 1, 1, 1})) {
    case 1:
      other = t;
      q = &other;
      break;
    case 2:
      other = std::move(t);
      q = &other;
      break;
    case 3: {
      Mesh x{t};
      t = Mesh{};
      other = std::move(x);
      q = &other;
      break;
    }
    case 4: {
      Mesh x{std::move(t)};
      t = x;
      break;
    }
    default:
      break;
  }
  if (q->num_faces() != m.f.size() || int(q->num_vertices()) != m.nv) {
    pbt::fail("size", "the mesh has " + std::to_string(q->num_faces()) + " faces");
  }
  std::map<E, std::vector<std::size_t>> around;
  std::vector<bool> used(std::size_t(m.nv));
  for (std::size_t i = 0; i < m.f.size(); ++i) {
    const auto& f = m.f[i];
    for (int k = 0; k < 3; ++k) {
      around[edge(f[k], f[(k + 1) % 3])].push_back(i);
      used[std::size_t(f[k])] = true;
    }
  }
  auto list = [](const std::vector<std::size_t>& v) {
    std::string r = "{";
    for (auto i : v) {
      r += " " + std::to_string(i);
    }
    return r + " }";
  };
  for (const auto& [e, want] : around) {
    std::vector<std::size_t> got;
    for (auto fi : q->faces_around_edge(kedge(e[0], e[1]))) {
      got.push_back(fi.idx());
      if (got.size() > m.f.size() + 1) {
        break;
      }
    }
    std::sort(got.begin(), got.end());
    if (got != want) {
      pbt::fail("edge", "edge " + std::to_string(e[0]) + "-" + std::to_string(e[1]) + ": reported " + list(got) + ", expected " + list(want));
    }
    c.nontrivial |= want.size() != 2;
  }
  // Pairs of used vertices that are not an edge.
  std::vector<int> uv;
  for (int v = 0; v < m.nv; ++v) {
    if (used[std::size_t(v)]) {
      uv.push_back(v);
    }
  }
  for (int k = 0; k < 20 && uv.size() > 1; ++k) {
    int a = s.pick(uv), b = s.pick(uv);
    if (a == b || around.count(edge(a, b)) != 0) {
      continue;
    }
    auto r = q->faces_around_edge(kedge(a, b));
    if (r.begin() != r.end()) {
      pbt::fail("no-edge", std::to_string(a) + "-" + std::to_string(b) + " is not an edge, but has faces");
    }
  }
  std::uint64_t evals = around.size();
  for (int round = 0; round < 3; ++round) {
    kigumi::Edge_set border;
    std::set<E> model;
    auto den = std::array<std::uint64_t, 3>{0, 4, 2}[std::size_t(round)];
    for (const auto& [e, l] : around) {
      if (den != 0 && s.chance(1, den)) {
        border.insert(kedge(e[0], e[1]));
        model.insert(e);
      }
    }
    for (std::size_t i = 0; i < m.f.size(); ++i) {
      std::set<std::size_t> want, got;
      for (int k = 0; k < 3; ++k) {
        auto e = edge(m.f[i][k], m.f[i][(k + 1) % 3]);
        if (model.count(e) == 0) {
          want.insert(around[e].begin(), around[e].end());
        }
      }
      want.erase(i);
      std::size_t steps = 0;
      for (auto fi : q->faces_around_face(Face_index{i}, border)) {
        got.insert(fi.idx());
        if (++steps > 3 * m.f.size() + 3) {
          pbt::fail("face", "the faces around face " + std::to_string(i) + " do not end");
        }
      }
      if (got != want) {
        pbt::fail("face", "face " + std::to_string(i) + " with " + std::to_string(model.size()) + " border edges: reported " +
                              list({got.begin(), got.end()}) + ", expected " + list({want.begin(), want.end()}));
      }
    }
    evals += m.f.size();
  }
  c.evals(evals);
}

PBT_SUB(large, 60, 1200,
        "meshes of 3000 to 250000 faces (sheets, random faces over few or many vertices, up to 150000 faces on one edge), in any order, with "
        "any thread limit; every edge, and up to 2000 faces with a random set of border edges, against lists made by sorting; non-trivial: an "
        "edge with other than two faces") {
  auto& s = c.src;
  std::uint64_t seed = s.below(1 << 20);
  auto r = [&](int m) { return int(pbt::splitmix(seed) % std::uint64_t(m)); };
  std::vector<std::array<int, 3>> f;
  int nv = 0;
  auto kind = s.below(4);
  int size = int(s.one_of<std::size_t>({s.size(3000, 20000), s.size(20000, 70000), c.tier == "thorough" ? s.size(70000, 250000) : s.size(50000, 140000)}));
  if (kind == 0) {
    int nx = std::max(10, int(std::sqrt(size / 2.0))) + int(s.around(8)), ny = size / 2 / nx + 1;
    nv = (nx + 1) * (ny + 1);
    for (int y = 0; y < ny; ++y) {
      for (int x = 0; x < nx; ++x) {
        int a = y * (nx + 1) + x, b = a + 1, d = a + nx + 1, g = d + 1;
        f.push_back({a, b, g});
        f.push_back({a, g, d});
      }
    }
  } else if (kind <= 2) {
    nv = kind == 1 ? int(s.range(20, 400)) : size + int(s.below(100));
    while (int(f.size()) < size) {
      std::array<int, 3> q{r(nv), r(nv), r(nv)};
      if (q[0] != q[1] && q[1] != q[2] && q[2] != q[0]) {
        f.push_back(q);
      }
    }
  } else {  // a few edges with most of the faces each
    int hubs = int(s.range(1, 3));
    nv = 2 * hubs + size / hubs + 1;
    for (int i = 0; i < size; ++i) {
      int h = 2 * r(hubs), o = r(2), w = 2 * hubs + i / hubs;
      f.push_back(r(2) != 0 ? std::array<int, 3>{h + o, h + 1 - o, w} : std::array<int, 3>{w, h + o, h + 1 - o});
    }
  }
  if (s.flip()) {
    for (std::size_t i = 0; i + 1 < f.size(); ++i) {
      std::swap(f[i], f[i + pbt::splitmix(seed) % (f.size() - i)]);
    }
  }
  c.describe(std::to_string(nv) + " vertices, " + std::to_string(f.size()) + " faces, kind " + std::to_string(kind) + "\n");
  c.label(f.size() > 65536 ? "more than 65536 faces" : f.size() > 10000 ? "more than 10000 faces" : "smaller");
  kigumi::Threading_options o;
  o.set_num_threads(s.one_of<std::size_t>({1, 2, 3, 8}));
  kigumi::Threading_context ctx{o};
  Mesh t;
  for (int i = 0; i < nv; ++i) {
    t.add_vertex(P3{i, 0, 0});
  }
  for (const auto& q : f) {
    t.add_face({Vertex_index{std::size_t(q[0])}, Vertex_index{std::size_t(q[1])}, Vertex_index{std::size_t(q[2])}});
  }
  t.finalize();
  struct Use {
    E e;
    std::size_t face;
  };
  std::vector<Use> uses;
  for (std::size_t i = 0; i < f.size(); ++i) {
    for (int k = 0; k < 3; ++k) {
      uses.push_back({edge(f[i][k], f[i][(k + 1) % 3]), i});
    }
  }
  std::sort(uses.begin(), uses.end(), [](const Use& a, const Use& b) { return a.e != b.e ? a.e < b.e : a.face < b.face; });
  auto first = [&](E e) {
    return std::lower_bound(uses.begin(), uses.end(), e, [](const Use& a, const E& b) { return a.e < b; });
  };
  for (auto it = uses.begin(); it != uses.end();) {
    auto e = it->e;
    std::vector<std::size_t> want, got;
    for (; it != uses.end() && it->e == e; ++it) {
      want.push_back(it->face);
    }
    for (auto fi : t.faces_around_edge(kedge(e[0], e[1]))) {
      got.push_back(fi.idx());
      if (got.size() > want.size()) {
        break;
      }
    }
    std::sort(got.begin(), got.end());
    c.evals(1);
    c.nontrivial |= want.size() != 2;
    if (got != want) {
      pbt::fail("edge", "edge " + std::to_string(e[0]) + "-" + std::to_string(e[1]) + ": " + std::to_string(got.size()) +
                            " faces or more are reported, expected " + std::to_string(want.size()) + ", or they differ");
    }
  }
  kigumi::Edge_set border;
  std::set<E> model;
  for (auto k = s.one_of<std::size_t>({0, 1, f.size() / 4}); k > 0; --k) {
    const auto& u = uses[std::size_t(r(int(uses.size())))];
    border.insert(kedge(u.e[0], u.e[1]));
    model.insert(u.e);
  }
  std::size_t budget = 5000000;
  for (int n = 0; n < 2000 && budget > 0; ++n) {
    auto i = n == 0 ? f.size() - 1 : std::size_t(r(int(f.size())));
    std::vector<std::size_t> want, got;
    for (int k = 0; k < 3; ++k) {
      auto e = edge(f[i][k], f[i][(k + 1) % 3]);
      if (model.count(e) != 0) {
        continue;
      }
      for (auto it = first(e); it != uses.end() && it->e == e; ++it) {
        if (it->face != i) {
          want.push_back(it->face);
        }
      }
    }
    std::sort(want.begin(), want.end());
    want.erase(std::unique(want.begin(), want.end()), want.end());
    for (auto fi : t.faces_around_face(Face_index{i}, border)) {
      got.push_back(fi.idx());
      if (got.size() > 3 * f.size() + 3) {
        pbt::fail("face", "the faces around face " + std::to_string(i) + " do not end");
      }
    }
    budget -= std::min(budget, got.size() + 1);
    std::sort(got.begin(), got.end());
    got.erase(std::unique(got.begin(), got.end()), got.end());
    c.evals(1);
    if (got != want) {
      pbt::fail("face", "face " + std::to_string(i) + ": " + std::to_string(got.size()) + " faces are reported, expected " +
                            std::to_string(want.size()) + ", or they differ");
    }
  }
}

int main(int argc, char** argv) {
  pbt::Engine e;
  return e.main(argc, argv);
}
