// C10: results depend only on the sets, not on how they are represented.
#include "clipped_common.h"

namespace {

void change(pbt::Source& s, gen::M& m, std::string& what) {
  switch (s.weighted({4, 4, 2})) {
    case 0:
      m = gen::relabelled(s, m);
      what += " relabelled";
      break;
    case 1:
      m = gen::refined(s, m, int(s.range(1, 4)));
      what += " faces-split";
      break;
    default: {
      // Every face gets vertices of its own.
      gen::M r;
      for (const auto& f : m.f) {
        std::array<int, 3> g{};
        for (int k = 0; k < 3; ++k) {
          g[k] = gen::add_point(r, m.p[f[k]]);
        }
        r.f.push_back(g);
      }
      m = r;
      what += " polygon-soup";
      break;
    }
  }
}

}  // namespace

PBT_SUB(representations, 900, 16000,
        "two valid closed boundary meshes (a fifth: clipped by a common convex region) and one to three changes of representation of either (renumbering, reordering, rotated "
        "corners, duplicate and unused vertices, split faces, polygon soup) and coordinates as doubles, rationals or unevaluated expressions, all operators before and "
        "after compared as sets; non-trivial: the surfaces meet") {
  auto& s = c.src;
  auto p = make_closed_or_clipped_pair(c);
  auto a = p.a.m, b = p.b.m;
  std::string what;
  int n = int(s.range(1, 3));
  for (int i = 0; i < n; ++i) {
    bool first = s.flip();
    what += first ? " A" : " B";
    change(s, first ? a : b, what);
  }
  bool ra = s.chance(1, 3), rb = s.chance(1, 3);
  what += ra ? " A-rational" : "";
  what += rb ? " B-rational" : "";
  c.describe("changes:" + what + "\nA: " + gen::show(a) + "B: " + gen::show(b));
  if (!validity(a, false).empty() || !validity(b, false).empty()) {
    c.label("DISCARDED generator");
    throw pbt::Discard{};
  }
  Builder b1{p.a.region(), p.b.region()}, b2{gen::to_region(ra ? gen::represented(s, a) : a),
                                                 gen::to_region(rb ? gen::represented(s, b) : b)};
  std::uint64_t k = 0;
  if (b1.warnings() != b2.warnings()) {
    pbt::fail("warning", "the warnings differ after" + what);
  }
  for (int i = 1; i < 15; ++i) {
    auto op = op_of(i);
    auto o1 = operand_of(b1(op)), o2 = operand_of(b2(op));
    if (auto v = same_set(s, o1, o2); !v.empty()) {
      pbt::fail("representation", std::string{"op "} + name(op) + " after" + what + ": " + v);
    }
    k += o1.g.size() + o2.g.size();
  }
  c.evals(k);
}

PBT_SUB(affine_maps, 400, 8000,
        "two valid closed boundary meshes (a fifth: clipped by a common convex region) and one orientation-preserving exact affine map (rational rotations, shears, thirds, "
        "large offsets, extreme scales, and compositions) applied to both: every operator's result must be the image of the "
        "original result; non-trivial: the surfaces meet and the map is not the identity") {
  auto& s = c.src;
  gen::Pair_options po;
  po.affine = s.chance(1, 4);
  auto p = make_closed_or_clipped_pair(c, po);
  auto t = gen::gen_affine(s);
  auto u = gen::gen_affine(s);
  bool two = s.flip();
  auto map = [&](const P3& x) { return two ? u(t(x)) : t(x); };
  c.describe("map: " + t.name + (two ? " then " + u.name : "") + "\n");
  c.label(t.name + (two ? " then " + u.name : ""));
  c.nontrivial = c.nontrivial && (t.name != "identity" || (two && u.name != "identity"));
  auto a = gen::plain(gen::mapped(p.a.m, map)), b = gen::plain(gen::mapped(p.b.m, map));
  Builder b1{p.a.region(), p.b.region()}, b2{gen::to_region(a), gen::to_region(b)};
  std::uint64_t k = 0;
  for (int i = 1; i < 15; ++i) {
    auto op = op_of(i);
    auto o1 = operand_of(b1(op)), o2 = operand_of(b2(op));
    Operand img = o1.kind == 2 ? Operand{gen::mapped(o1.m, map)} : o1;
    if (auto v = same_set(s, img, o2); !v.empty()) {
      pbt::fail("affine", std::string{"op "} + name(op) + ": " + v);
    }
    k += o1.g.size() + o2.g.size();
  }
  c.evals(k);
}

int main(int argc, char** argv) {
  pbt::Engine e;
  return e.main(argc, argv);
}
