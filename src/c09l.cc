// C09 on large operands: the same operation with other thread limits, again, and next to others.
#include <map>
#include <thread>

#include "kig_defects.h"
#include "terrains.h"

namespace {

// What a result is, whatever its triangulation: kind, warnings, volume, and for each value of face data the area that has it.
struct Summary {
  int kind{};
  unsigned warnings{};
  double volume{};
  std::map<int, double> area;
};

Summary summary(const Builder& b, Op op) {
  Summary r;
  auto x = b(op);
  r.kind = x.is_empty() ? 0 : x.is_full() ? 1 : 2;
  r.warnings = unsigned(b.warnings());
  const auto& m = x.boundary();
  std::vector<std::array<double, 3>> p;
  for (auto v : m.vertices()) {
    p.push_back(dpoint(m.point(v)));
  }
  for (auto fi : m.faces()) {
    const auto& f = m.face(fi);
    const auto &q = p[f[0].idx()], &u = p[f[1].idx()], &v = p[f[2].idx()];
    double n[3];
    for (int k = 0; k < 3; ++k) {
      int i = (k + 1) % 3, j = (k + 2) % 3;
      n[k] = (u[i] - q[i]) * (v[j] - q[j]) - (u[j] - q[j]) * (v[i] - q[i]);
    }
    r.volume += (q[0] * n[0] + q[1] * n[1] + q[2] * n[2]) / 6;
    r.area[m.data(fi).v] += std::sqrt(n[0] * n[0] + n[1] * n[1] + n[2] * n[2]) / 2;
  }
  return r;
}

std::string difference(const Summary& a, const Summary& b) {
  if (a.kind != b.kind || a.warnings != b.warnings) {
    return "the kind or the warnings differ";
  }
  if (std::fabs(a.volume - b.volume) > 1e-9 * (1e6 + std::fabs(a.volume))) {
    return "the volumes are " + std::to_string(a.volume) + " and " + std::to_string(b.volume);
  }
  for (const auto* x : {&a, &b}) {
    const auto* y = x == &a ? &b : &a;
    for (const auto& [d, s] : x->area) {
      auto it = y->area.find(d);
      double t = it == y->area.end() ? 0 : it->second;
      if (std::fabs(s - t) > 1e-7 * (1 + s)) {
        return "the area with the data " + std::to_string(d) + " is " + std::to_string(s) + " and " + std::to_string(t);
      }
    }
  }
  return "";
}

}  // namespace

PBT_SUB(terrains, 48, 800,
        "two solids under or over terrains of 1000 to 40000 faces (as in C01), an operation, point location and a defect report: with one thread, "
        "then with other thread limits, again, and several at once in threads of their own on the same regions: the same kind, warnings, "
        "volume, area of each face's data, answers and reports; non-trivial: more than 2000 faces") {
  auto& s = c.src;
  auto [a, b, ma, mb] = gen_terrains(c, c.tier == "thorough" ? 100 : 60);
  label_size(c, ma.f.size());
  c.nontrivial = ma.f.size() > 2000;
  Region ra{gen::to_soup(ma)}, rb{gen::to_soup(mb)};
  auto op = op_of(int(s.range(1, 14)));
  bool damaged = s.flip();
  auto md = ma;
  if (damaged) {
    for (int k = 0; k < 40; ++k) {
      auto i = std::size_t(s.below(md.f.size()));
      k % 2 != 0 ? std::swap(md.f[i][0], md.f[i][1]) : void(md.f[i][2] = int(s.below(md.p.size())));
    }
  }
  std::vector<P3> points;
  for (int k = 0; k < 20; ++k) {
    points.push_back(s.flip() ? s.pick(ma.p) : P3{double(s.around(a.n)), double(s.around(a.n)), double(s.around(6))});
  }
  auto limit = [](std::size_t n) {
    kigumi::Threading_options o;
    o.set_num_threads(n);
    return o;
  };
  struct Answer {
    Summary sum;
    std::vector<int> sides;
    std::vector<std::size_t> lists;
  };
  auto run = [&](std::size_t threads, const Region& x, const Region& y) {
    kigumi::Threading_context ctx{limit(threads)};
    Answer r{summary(Builder{x, y}, op), {}, {}};
    for (const auto& p : points) {
      r.sides.push_back(int(x.bounded_side(p)));
    }
    auto d = find_defects(gen::to_soup(md));
    for (auto l : {&d.isolated_vertices, &d.non_manifold_vertices, &d.trivial_degenerate_faces, &d.non_trivial_degenerate_faces, &d.overlapping_faces}) {
      std::sort(l->begin(), l->end());
      r.lists.push_back(l->size());
      r.lists.insert(r.lists.end(), l->begin(), l->end());
    }
    for (auto l : {&d.boundary_edges, &d.inconsistent_edges, &d.non_manifold_edges}) {
      std::sort(l->begin(), l->end());
      r.lists.push_back(l->size());
      for (const auto& e : *l) {
        r.lists.insert(r.lists.end(), e.begin(), e.end());
      }
    }
    return r;
  };
  auto same = [&](const Answer& x, const Answer& y, const std::string& how) {
    if (auto d = difference(x.sum, y.sum); !d.empty()) {
      pbt::fail("result", std::string{"op "} + name(op) + ", " + how + ": " + d);
    }
    if (x.sides != y.sides) {
      pbt::fail("side", "point location differs " + how);
    }
    if (x.lists != y.lists) {
      pbt::fail("defects", "the defect report differs " + how);
    }
    c.evals(1);
  };
  auto want = run(1, ra, rb);
  for (auto n : {s.one_of<std::size_t>({2, 3}), s.one_of<std::size_t>({4, 8, 16})}) {
    same(want, run(n, s.flip() ? ra : Region{gen::to_soup(ma)}, rb), "with " + std::to_string(n) + " threads");
  }
  std::vector<Answer> got(3);
  std::vector<std::string> errors(3);
  {
    Region sa{gen::to_soup(ma)}, sb{gen::to_soup(mb)};
    std::vector<std::thread> ts;
    for (std::size_t t = 0; t < 3; ++t) {
      ts.emplace_back([&, t] {
        try {
          got[t] = run(1 + 2 * t, sa, sb);
        } catch (const std::exception& e) {
          errors[t] = e.what();
        }
      });
    }
    for (auto& t : ts) {
      t.join();
    }
  }
  for (std::size_t t = 0; t < 3; ++t) {
    if (!errors[t].empty()) {
      pbt::fail("concurrent", "an operation next to others fails: " + errors[t]);
    }
    same(want, got[t], "next to others");
  }
}

int main(int argc, char** argv) {
  pbt::Engine e;
  e.batch = 1;
  return e.main(argc, argv);
}
