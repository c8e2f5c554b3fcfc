// C11: an operation leaves its operands intact and its object answers repeatedly.
#include "clipped_common.h"

namespace {

// Everything observable of a region's representation, in order.
std::string snapshot(const Region& r) {
  std::ostringstream o;
  o << (r.is_empty() ? "EMPTY " : r.is_full() ? "FULL " : "MESH ");
  const auto& b = r.boundary();
  o << b.num_vertices() << ' ' << b.num_faces() << '\n';
  for (auto v : b.vertices()) {
    const auto& e = b.point(v).exact();
    o << e.x() << ' ' << e.y() << ' ' << e.z() << '\n';
  }
  for (auto f : b.faces()) {
    const auto& t = b.face(f);
    o << t[0].idx() << ' ' << t[1].idx() << ' ' << t[2].idx() << ' ' << b.data(f).v << '\n';
  }
  return o.str();
}

}  // namespace

PBT_SUB(histories, 4000, 80000,
        "two valid closed boundary meshes (a fifth: clipped by a common convex region) with face data (or one combined with itself), and a random sequence of operator requests, "
        "repetitions and preferences on one operation object, interleaved with other operations on the same operands and with the "
        "operands being destroyed or overwritten: every answer must equal a fresh operation's, and the operands must stay as they "
        "were; non-trivial: at least six requests with a repetition, on surfaces that meet") {
  auto& s = c.src;
  gen::Pair_options po;
  po.components = 20;
  auto p = make_closed_or_clipped_pair(c, po);
  set_data(p.a.m, 1000);
  set_data(p.b.m, 5000);
  bool self = s.chance(1, 6);
  if (self) {
    p.b = p.a;
    c.label("combined with itself");
    c.describe("(A combined with itself)\n");
    c.nontrivial = true;
  } else if (s.chance(1, 12)) {
    (s.flip() ? p.a : p.b) = Operand::constant(s.flip());
    c.label("one special operand");
  }
  // Expected answers, each from an operation of its own, on operands of its own.
  std::map<std::pair<int, bool>, std::vector<std::string>> expected;
  auto fresh = [&](int op, bool pf) -> const std::vector<std::string>& {
    auto it = expected.find({op, pf});
    if (it == expected.end()) {
      Builder b{p.a.region(), p.b.region()};
      it = expected.emplace(std::make_pair(op, pf), face_list(b(op_of(op), pf))).first;
    }
    return it->second;
  };

  auto ra = std::make_unique<Region>(p.a.region());
  auto rb = self ? nullptr : std::make_unique<Region>(p.b.region());
  const Region& a = *ra;
  const Region& b = self ? *ra : *rb;
  auto sa = snapshot(a), sb = snapshot(b);
  auto unchanged = [&](const char* when) {
    if (ra && snapshot(*ra) != sa) {
      pbt::fail("operand-changed", std::string{"the first operand was changed "} + when);
    }
    if (rb && snapshot(*rb) != sb) {
      pbt::fail("operand-changed", std::string{"the second operand was changed "} + when);
    }
  };
  Builder bld{a, b};
  unchanged("by building the operation");
  std::string log;
  int n = int(s.range(3, 8));
  std::set<int> ops;
  bool repeated = false;
  std::vector<std::pair<std::vector<std::string>, Region>> kept;
  for (int i = 0; i < n; ++i) {
    auto what = s.weighted({10, 2, 1, 1});
    if (what == 1 && ra && (self || rb)) {  // another operation on the same operands
      Builder other{b, a};
      auto r = other(op_of(s.below(16)));
      log += " [other operation]";
      unchanged("by another operation");
    } else if (what == 2 && ra && !self) {  // the operands go away
      ra.reset();
      rb.reset();
      log += " [operands destroyed]";
    } else if (what == 3 && ra && !self) {  // the operands are overwritten
      *ra = Region::full();
      *rb = gen::to_region(gen::base_octa());
      sa = snapshot(*ra);
      sb = snapshot(*rb);
      log += " [operands overwritten]";
      // From here on `a` and `b` denote other regions; the operation must still answer for the old ones.
    }
    int op = int(s.below(16));
    bool pf = !s.chance(1, 3);
    repeated |= !ops.insert(op).second;
    log += std::string{" "} + name(op_of(op)) + (pf ? "" : "'");
    auto r = bld(op_of(op), pf);
    auto got = face_list(r);
    if (auto d = first_difference(fresh(op, pf), got); !d.empty()) {
      pbt::fail("answer", "after the requests" + log + ": the answer differs from a fresh operation's: " + d);
    }
    unchanged("by a request");
    kept.emplace_back(std::move(got), std::move(r));
  }
  // Earlier answers are independent objects.
  for (const auto& [l, r] : kept) {
    if (auto d = first_difference(l, face_list(r)); !d.empty()) {
      pbt::fail("answer-changed", "an earlier answer changed after the requests" + log + ": " + d);
    }
  }
  c.describe("requests:" + log + "\n");
  c.nontrivial = c.nontrivial && n >= 6 && repeated;
  c.evals(n);
}

int main(int argc, char** argv) {
  pbt::Engine e;
  return e.main(argc, argv);
}
