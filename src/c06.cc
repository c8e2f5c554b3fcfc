// C06: face data follow each piece of surface through an operation.
#include "clipped_common.h"

static std::uint64_t check_data(const Operand& a, const Operand& b, Op op, bool prefer_first, const Region& r,
                                std::map<std::string, std::uint64_t>& seen) {
  auto res = operand_of(r);
  std::uint64_t n = 0;
  for (std::size_t i = 0; i < res.g.size(); ++i) {
    const auto &p = res.g.v(i, 0), &q = res.g.v(i, 1), &t = res.g.v(i, 2);
    P3 c = bary(p, q, t, 1, 1, 1);
    std::vector<int> fa, fb;
    for (auto f : a.kind == 2 ? a.g.containing(c) : std::vector<std::size_t>{}) {
      fa.push_back(a.m.d[f]);
    }
    for (auto f : b.kind == 2 ? b.g.containing(c) : std::vector<std::size_t>{}) {
      fb.push_back(b.m.d[f]);
    }
    const auto& pref = fa.empty() ? fb : fb.empty() ? fa : prefer_first ? fa : fb;
    ++n;
    int d = res.m.d[i];
    if (std::find(pref.begin(), pref.end(), d) == pref.end()) {
      auto list = [](const std::vector<int>& v) {
        std::string s;
        for (int x : v) {
          s += " " + std::to_string(x);
        }
        return s;
      };
      pbt::fail("data", std::string{"op "} + name(op) + (prefer_first ? "" : ", preferring the second operand") +
                            ": the result face at " + gen::fmt(c) + " has datum " + std::to_string(d) +
                            "; the faces that contain it have:" + list(fa) + " (first operand)," + list(fb) + " (second operand)");
    }
    ++seen[!fa.empty() && !fb.empty() ? "faces on both operands" : "faces on one operand"];
  }
  return n;
}

PBT_SUB(both_preferences, 1500, 24000,
        "two valid closed boundary meshes (a fifth: clipped by a common convex region) with a different datum on every face (or few data repeated), all operators and both "
        "preferences: the datum of every result face must belong to an operand face that contains it, of the preferred operand "
        "where both do, and both preferences must give the same set; non-trivial: the surfaces meet") {
  auto& s = c.src;
  auto p = make_closed_or_clipped_pair(c);
  bool few = s.chance(1, 4);
  set_data(p.a.m, 1000);
  set_data(p.b.m, 5000);
  if (few) {
    for (auto* m : {&p.a.m, &p.b.m}) {
      for (auto& d : m->d) {
        d = int(s.range(-2, 2));
      }
    }
  }
  if (s.chance(1, 12)) {
    (s.flip() ? p.a : p.b) = Operand::constant(s.flip());
    c.label("one special operand");
    c.nontrivial = true;
  }
  Builder bld{p.a.region(), p.b.region()};
  std::uint64_t n = 0;
  std::map<std::string, std::uint64_t> seen;
  for (int i = 1; i < 15; ++i) {
    auto op = op_of(i);
    auto r1 = bld(op, true), r2 = bld(op, false);
    auto rd = bld(op);
    n += check_data(p.a, p.b, op, true, r1, seen);
    n += check_data(p.a, p.b, op, false, r2, seen);
    if (auto d = first_difference(face_list(r1), face_list(rd)); !d.empty()) {
      pbt::fail("default", std::string{"op "} + name(op) + ": the default differs from preferring the first operand: " + d);
    }
    if (i % 3 == int(s.below(3))) {
      if (auto v = same_set(s, operand_of(r1), operand_of(r2)); !v.empty()) {
        pbt::fail("preference-changes-set", std::string{"op "} + name(op) + ": " + v);
      }
    }
  }
  for (const auto& [k, v] : seen) {
    c.label(k, v);
  }
  c.evals(n);
}

int main(int argc, char** argv) {
  pbt::Engine e;
  return e.main(argc, argv);
}
