// C20: a mesh answers queries from its current contents.
#include "boolean_common.h"

#include <kigumi/Side_of_triangle_soup.h>

namespace {

using Leaf = Soup::Leaf;

// A mesh object and what it must contain.
struct Obj {
  std::unique_ptr<Soup> soup;      // either a mesh of its own ...
  std::unique_ptr<Region> region;  // ... or the boundary of a region
  gen::M m;
  bool whole{true};   // all of its components are complete (a valid closed mesh)
  int slots{};        // components so far
  bool queried{};     // a spatial query has been made since the contents last came to be
  const Soup& get() const { return region ? region->boundary() : *soup; }
  Soup& edit() { return region ? region->boundary_unsafe() : *soup; }
};

CGAL::Bbox_3 gen_box(pbt::Source& s, const gen::M& m) {
  auto co = [&] { return double(s.around(24)) / 2; };
  if (!m.p.empty() && s.flip()) {
    const auto& p = m.p[s.below(m.p.size())];
    double e = s.one_of({0.0, 0.5, 2.0, 8.0});
    double x = gen::dbl(p.x()), y = gen::dbl(p.y()), z = gen::dbl(p.z());
    return {x - e, y - e, z - e, x + e, y + e, z + e};
  }
  double a = co(), b = co(), d = co(), e = co(), f = co(), g = co();
  return {std::min(a, b), std::min(d, e), std::min(f, g), std::max(a, b), std::max(d, e), std::max(f, g)};
}

// The ranges of vertices and faces can be walked in any way.
template <class Idx, class It>
bool walkable(It b, It e, std::size_t n) {
  auto d = [](std::size_t x) { return static_cast<std::ptrdiff_t>(x); };
  if (e - b != d(n) || b - e != -d(n) || (b == e) != (n == 0)) {
    return false;
  }
  for (auto k : {std::size_t{0}, n / 3, n / 2, n}) {
    auto it = b + d(k);
    if (it - b != d(k) || e - it != d(n - k) || e - d(n - k) != it || (it == e) != (k == n) || (b < it) != (k > 0)) {
      return false;
    }
    if (k < n && ((*it).idx() != k || Idx{b[d(k)]}.idx() != k)) {
      return false;
    }
    if (k > 0) {
      auto before = it;
      --before;
      if ((*before).idx() != k - 1 || ++before != it || (it -= d(k)) != b || (it += d(k)) - b != d(k)) {
        return false;
      }
    }
  }
  return true;
}

void check_contents(const Obj& o, const std::string& log) {
  const auto& t = o.get();
  auto bad = [&](const std::string& w) { pbt::fail("contents", "after" + log + ": " + w); };
  if (t.num_vertices() != o.m.p.size() || t.num_faces() != o.m.f.size()) {
    bad("the mesh has " + std::to_string(t.num_vertices()) + " vertices and " + std::to_string(t.num_faces()) + " faces, expected " +
        std::to_string(o.m.p.size()) + " and " + std::to_string(o.m.f.size()));
  }
  std::size_t i = 0;
  for (auto v : t.vertices()) {
    if (v.idx() != i || t.point(v) != o.m.p[i]) {
      bad("vertex " + std::to_string(i) + " differs");
    }
    ++i;
  }
  if (i != o.m.p.size()) {
    bad("iteration visits " + std::to_string(i) + " vertices");
  }
  i = 0;
  for (auto f : t.faces()) {
    const auto& g = t.face(f);
    auto tri = t.triangle(f);
    for (int k = 0; k < 3; ++k) {
      if (f.idx() != i || int(g[k].idx()) != o.m.f[i][k] || tri[k] != o.m.p[o.m.f[i][k]]) {
        bad("face " + std::to_string(i) + " differs");
      }
    }
    if (t.data(f).v != o.m.d[i]) {
      bad("the data of face " + std::to_string(i) + " is " + std::to_string(t.data(f).v) + ", expected " + std::to_string(o.m.d[i]));
    }
    ++i;
  }
  if (i != o.m.f.size()) {
    bad("iteration visits " + std::to_string(i) + " faces");
  }
  if (!walkable<Vertex_index>(t.vertices_begin(), t.vertices_end(), o.m.p.size()) || !walkable<Face_index>(t.faces_begin(), t.faces_end(), o.m.f.size())) {
    bad("the ranges of vertices or faces are inconsistent");
  }
  CGAL::Bbox_3 b;
  for (const auto& p : o.m.p) {
    b += box(p);
  }
  if (!(t.bbox() == b)) {
    bad("the bounding box differs");
  }
}

void check_box(const Obj& o, const CGAL::Bbox_3& q, const std::string& log) {
  std::vector<const Leaf*> leaves;
  o.get().aabb_tree().get_intersecting_leaves(std::back_inserter(leaves), q);
  std::vector<std::size_t> got, want;
  for (const auto* l : leaves) {
    got.push_back(l->face_index().idx());
  }
  for (std::size_t i = 0; i < o.m.f.size(); ++i) {
    const auto& f = o.m.f[i];
    if (CGAL::do_overlap(box(o.m.p[f[0]]) + box(o.m.p[f[1]]) + box(o.m.p[f[2]]), q)) {
      want.push_back(i);
    }
  }
  std::sort(got.begin(), got.end());
  if (got != want) {
    pbt::fail("box-query", "after" + log + ": a box query finds " + std::to_string(got.size()) + " faces, expected " +
                               std::to_string(want.size()) + (got.empty() ? "" : ", last found " + std::to_string(got.back())));
  }
}

P3 gen_point(pbt::Source& s, const gen::M& m) {
  if (s.chance(1, 3)) {
    return P3{FT{int(s.around(30))} + FT{1} / FT{3}, FT{int(s.around(6))} + FT{2} / FT{7}, FT{int(s.around(6))} + FT{1} / FT{5}};
  }
  const auto& f = m.f[s.below(m.f.size())];
  auto c = bary(m.p[f[0]], m.p[f[1]], m.p[f[2]], 1, int(s.range(0, 2)), int(s.range(0, 2)));
  if (s.flip()) {
    return c;
  }
  return c + (m.p[m.f[s.below(m.f.size())][0]] - c) * (FT{1} / FT{s.one_of({64, 3, -64})});
}

const char* kNames[] = {"outside", "boundary", "inside"};

}  // namespace

PBT_SUB(histories, 5000, 80000,
        "random histories of 4 to 24 operations on up to five mesh objects (meshes and boundaries of regions): adding components, "
        "single faces, vertices and data, copying, moving, assigning, assigning to itself, swapping, with box queries, point "
        "location and Boolean operations in between; a plain list of points and faces is the model; non-trivial: an object is "
        "modified or assigned after it has been queried, and queried again") {
  auto& s = c.src;
  std::vector<Obj> pool;
  std::string log;
  std::uint64_t n_evals = 0;
  auto fresh = [&](bool region) {
    Obj o;
    if (region) {
      auto m = gen::base_tetra();
      m.d.assign(m.f.size(), -1);
      o.m = m;
      o.slots = 1;
      o.region = std::make_unique<Region>(gen::to_soup(m));
    } else {
      o.soup = std::make_unique<Soup>();
    }
    return o;
  };
  pool.push_back(fresh(false));
  int steps = int(s.range(4, 24));
  bool stale_possible = false;
  for (int step = 0; step < steps; ++step) {
    auto i = s.below(pool.size());
    auto& o = pool[i];
    auto say = [&](const std::string& w) { log += " " + w + "(" + std::to_string(i) + ")"; };
    switch (s.weighted({8, 3, 2, 2, 3, 4, 2, 3, 1, 8, 6, 2, 2})) {
      case 0: {  // a closed component in a place of its own
        if (o.slots >= 4) {
          break;
        }
        say("add-component");
        auto k = s.below(3);
        auto comp = k == 0 ? gen::base_tetra() : k == 1 ? gen::base_octa() : gen::base_cube();
        comp = gen::translated(comp, 6.0 * o.slots, double(s.around(2)), 0);
        auto base = o.edit().num_vertices();
        for (const auto& p : comp.p) {
          auto v = o.edit().add_vertex(p);
          if (v.idx() != o.m.p.size()) {
            pbt::fail("contents", "after" + log + ": add_vertex returned " + std::to_string(v.idx()));
          }
          o.m.p.push_back(p);
        }
        for (const auto& f : comp.f) {
          auto at = [&](int x) { return Vertex_index{base + std::size_t(x)}; };
          auto fi = o.edit().add_face({at(f[0]), at(f[1]), at(f[2])});
          if (fi.idx() != o.m.f.size()) {
            pbt::fail("contents", "after" + log + ": add_face returned " + std::to_string(fi.idx()));
          }
          o.m.f.push_back({f[0] + int(base), f[1] + int(base), f[2] + int(base)});
          o.m.d.push_back(-1);
        }
        ++o.slots;
        stale_possible |= o.queried;
        break;
      }
      case 1: {  // a single face: the mesh is not closed any more
        if (o.m.p.size() < 3 || o.region) {
          break;
        }
        say("add-face");
        std::array<int, 3> f{};
        for (auto& v : f) {
          v = int(s.below(o.m.p.size()));
        }
        o.edit().add_face({Vertex_index{std::size_t(f[0])}, Vertex_index{std::size_t(f[1])}, Vertex_index{std::size_t(f[2])}});
        o.m.f.push_back(f);
        o.m.d.push_back(-1);
        o.whole = false;
        stale_possible |= o.queried;
        break;
      }
      case 2: {
        say("add-vertex");
        P3 p{int(s.around(9)), int(s.around(9)), int(s.around(9))};
        o.edit().add_vertex(p);
        o.m.p.push_back(p);
        break;
      }
      case 3:
        if (!o.m.f.empty()) {
          say("set-data");
          auto f = s.below(o.m.f.size());
          o.m.d[f] = int(s.below(1000));
          o.edit().data(Face_index{f}) = FD{o.m.d[f]};
        }
        break;
      case 4: {  // a new object: empty, copied or moved
        if (pool.size() >= 5) {
          break;
        }
        auto k = s.below(5);
        Obj n;
        if (k == 0) {
          say("new");
          n = fresh(s.flip());
        } else if (k <= 2) {
          say("copy-construct");
          if (o.region && s.flip()) {
            n.region = std::make_unique<Region>(*o.region);
          } else {
            n.soup = std::make_unique<Soup>(o.get());
          }
          n.m = o.m;
          n.whole = o.whole;
          n.slots = o.slots;
        } else if (k == 3) {
          say("move-construct");
          if (o.region) {
            n.region = std::make_unique<Region>(std::move(*o.region));
          } else {
            n.soup = std::make_unique<Soup>(std::move(*o.soup));
          }
          n.m = std::move(o.m);
          n.whole = o.whole;
          n.slots = o.slots;
          // A moved-from object may be assigned to or destroyed: make it a copy of the new one again, or a new one.
          if (o.region) {
            *o.region = *n.region;
          } else {
            *o.soup = *n.soup;
          }
          o.m = n.m;
          stale_possible |= o.queried;
        } else if (!o.m.f.empty() && !o.region) {
          say("region-of");
          n.region = std::make_unique<Region>(*o.soup);
          n.m = o.m;
          n.whole = o.whole;
          n.slots = o.slots;
        } else {
          break;
        }
        n.queried = false;
        pool.push_back(std::move(n));
        break;
      }
      case 5: {  // copy assignment, to itself too
        auto j = s.below(pool.size());
        auto& q = pool[j];
        if (o.region && q.region) {
          *o.region = *q.region;
        } else if (!o.region && !q.region) {
          *o.soup = *q.soup;
        } else if (!o.region) {
          *o.soup = q.region->boundary();
        } else {
          break;
        }
        say("assign-from-" + std::to_string(j));
        o.m = gen::M{q.m};
        o.whole = q.whole;
        o.slots = q.slots;
        stale_possible |= o.queried;
        break;
      }
      case 6: {  // move assignment from a temporary copy or another object
        auto j = s.below(pool.size());
        auto& q = pool[j];
        if (bool(o.region) != bool(q.region)) {
          break;
        }
        say("move-assign-from-" + std::to_string(j));
        bool warm = s.flip();
        if (i == j || s.flip()) {
          if (o.region) {
            Region t{*q.region};
            if (warm) {
              (void)t.boundary().aabb_tree();
            }
            *o.region = std::move(t);
          } else {
            Soup t{*q.soup};
            if (warm) {
              (void)t.aabb_tree();
            }
            *o.soup = std::move(t);
          }
        } else if (o.region) {
          *o.region = std::move(*q.region);
          *q.region = *o.region;
        } else {
          *o.soup = std::move(*q.soup);
          *q.soup = *o.soup;
        }
        o.m = gen::M{q.m};
        o.whole = q.whole;
        o.slots = q.slots;
        stale_possible |= o.queried || q.queried;
        break;
      }
      case 7: {  // swap
        auto j = s.below(pool.size());
        auto& q = pool[j];
        if (i == j || bool(o.region) != bool(q.region)) {
          break;
        }
        say("swap-with-" + std::to_string(j));
        if (o.region) {
          std::swap(*o.region, *q.region);
        } else {
          std::swap(*o.soup, *q.soup);
        }
        std::swap(o.m, q.m);
        std::swap(o.whole, q.whole);
        std::swap(o.slots, q.slots);
        stale_possible |= o.queried || q.queried;
        break;
      }
      case 8:
        if (pool.size() > 1) {
          say("destroy");
          pool.erase(pool.begin() + std::ptrdiff_t(i));
        }
        break;
      case 9: {
        say("box-query");
        auto q = gen_box(s, o.m);
        check_box(o, q, log);
        c.nontrivial |= stale_possible;
        o.queried = true;
        ++n_evals;
        break;
      }
      case 10: {
        if (!o.whole || o.m.f.empty()) {
          break;
        }
        say("locate");
        auto p = gen_point(s, o.m);
        Geo g{o.m};
        int want = g.containing(p).empty() ? (g.inside(p).value() ? 1 : -1) : 0;
        int got = o.region ? int(o.region->bounded_side(p))
                           : -int(kigumi::Side_of_triangle_soup<K, FD>{}(*o.soup, p));
        if (got != want) {
          pbt::fail("locate", "after" + log + ": (" + gen::fmt(p) + ") is reported " + kNames[got + 1] + " but is " + kNames[want + 1]);
        }
        c.nontrivial |= stale_possible;
        o.queried = true;
        ++n_evals;
        break;
      }
      case 11: {  // the mesh as an operand
        if (!o.region || !o.whole) {
          break;
        }
        say("combine");
        auto cube = gen::translated(gen::scaled(gen::base_cube(), 0.5), 6.0 * double(s.below(4)) + 0.75, 0.25, 0.5);
        auto k = op_of(s.weighted({1, 1, 1}) == 0 ? 11 : s.flip() ? 1 : 12);  // K, A, L
        auto r = operand_of(Builder{*o.region, gen::to_region(cube)}(k));
        Operand oa{o.m}, ob{cube};
        for (int t = 0; t < 4; ++t) {
          auto p = gen_point(s, t % 2 ? o.m : cube);
          if (!oa.g.containing(p).empty() || !ob.g.containing(p).empty()) {
            continue;
          }
          bool want = apply(k, oa.g.inside(p).value(), ob.g.inside(p).value());
          bool got = r.kind == 2 ? (r.g.containing(p).empty() ? r.g.inside(p).value_or(!want) : !want) : r.kind == 1;
          if (got != want) {
            pbt::fail("combine", "after" + log + ": " + name(k) + " with a cube: (" + gen::fmt(p) + ") should be " +
                                     (want ? "inside" : "outside"));
          }
        }
        c.nontrivial |= stale_possible;
        o.queried = true;
        ++n_evals;
        break;
      }
      default:
        say("inspect");
        check_contents(o, log);
        ++n_evals;
        break;
    }
    check_contents(pool[s.below(pool.size())], log);
  }
  c.describe("history:" + log + "\n");
  for (const auto& o : pool) {
    check_contents(o, log + " [end]");
    check_box(o, {-100, -100, -100, 100, 100, 100}, log + " [end]");
    n_evals += 2;
    if (o.whole && !o.m.f.empty()) {
      auto p = gen_point(s, o.m);
      Geo g{o.m};
      int want = g.containing(p).empty() ? (g.inside(p).value() ? 1 : -1) : 0;
      int got = -int(kigumi::Side_of_triangle_soup<K, FD>{}(o.get(), p));
      if (got != want) {
        pbt::fail("locate", "at the end: (" + gen::fmt(p) + ") is reported " + kNames[got + 1] + " but is " + kNames[want + 1]);
      }
      ++n_evals;
    }
  }
  c.evals(n_evals);
}

PBT_SUB(large, 48, 900,
        "meshes of up to 300000 vertices and faces (sizes around powers of two in particular) built from lists or one by one, then copied, "
        "moved, assigned or swapped: contents, ranges and a few box queries are those of the list; non-trivial: more than 32768 faces") {
  auto& s = c.src;
  auto size = [&] {
    auto n = s.flip() ? (std::size_t{1} << s.range(8, 18)) + s.size(0, 4) - 2 : s.size(1, 70000);
    return s.chance(1, 12) ? s.size(200000, 300000) : n;
  };
  auto nv = std::max<std::size_t>(size(), 3), nf = size();
  auto seed = s.below(1 << 20);
  Obj o;
  o.m.p.reserve(nv);
  for (std::size_t i = 0; i < nv; ++i) {
    std::uint64_t x = seed + i;
    auto r = pbt::splitmix(x);
    o.m.p.push_back(P3{double(i % 1024), double(i / 1024), double(r % 64) / 4});
  }
  for (std::size_t i = 0; i < nf; ++i) {
    std::uint64_t x = seed * 3 + i;
    auto at = pbt::splitmix(x) % (nv - 2);
    o.m.f.push_back({int(at), int(at + 1), int(at + 2)});
    o.m.d.push_back(std::int32_t(i * 7 + 1));
  }
  auto how = s.below(3), then = s.below(5);
  c.describe(std::to_string(nv) + " vertices, " + std::to_string(nf) + " faces, built " + std::to_string(how) + ", then " + std::to_string(then) + "\n");
  if (how == 0) {
    o.soup = std::make_unique<Soup>(gen::to_soup(o.m));
  } else {
    o.soup = std::make_unique<Soup>();
    for (const auto& p : o.m.p) {
      o.soup->add_vertex(p);
    }
    for (std::size_t i = 0; i < nf; ++i) {
      const auto& f = o.m.f[i];
      auto fi = o.soup->add_face({Vertex_index{std::size_t(f[0])}, Vertex_index{std::size_t(f[1])}, Vertex_index{std::size_t(f[2])}});
      o.soup->data(fi).v = o.m.d[i];
      if (fi.idx() != i) {
        pbt::fail("contents", "add_face returned " + std::to_string(fi.idx()) + " for face " + std::to_string(i));
      }
    }
  }
  std::string log = " building";
  auto look = [&] {
    check_contents(o, log);
    for (int k = 0; k < 2; ++k) {
      auto x = double(s.below(1024)), y = double(s.below(nv / 1024 + 1)), e = double(s.below(20));
      check_box(o, {x - e, y - e, -1, x + e, y + e, double(s.below(20))}, log);
    }
  };
  if (s.flip()) {
    look();
  }
  log += ", then " + std::to_string(then);
  switch (then) {
    case 1:
      o.soup = std::make_unique<Soup>(*o.soup);
      break;
    case 2:
      o.soup = std::make_unique<Soup>(std::move(*o.soup));
      break;
    case 3: {
      Soup t;
      t = *o.soup;
      *o.soup = std::move(t);
      break;
    }
    case 4: {
      Soup t;
      std::swap(t, *o.soup);
      std::swap(t, *o.soup);
      break;
    }
    default:
      break;
  }
  look();
  c.nontrivial = nf > 32768;
  c.label(nv > 65536 || nf > 65536 ? "more than 65536" : nf > 32768 ? "more than 32768 faces" : "smaller");
  c.evals(nv + nf);
}

int main(int argc, char** argv) {
  pbt::Engine e;
  return e.main(argc, argv);
}
