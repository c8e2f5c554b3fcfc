// Shared by the harnesses of Boolean operations: a generated pair of valid closed operands.
#pragma once
#include "boolean_oracle.h"
#include "kig_boolean.h"

using namespace oracle;

struct Case_pair {
  std::string relation;
  Operand a, b;
  bool meet{};
};

inline Case_pair make_pair(pbt::Case& c, gen::Pair_options po = {}) {
  auto& s = c.src;
  if (c.tier == "thorough") {
    po.big = s.chance(1, 4);
  }
  auto pr = gen::gen_pair(s, po);
  Case_pair r{pr.relation, Operand{pr.a}, Operand{pr.b}};
  c.describe(pr.relation + "\n");
  c.describe(describe_pair(r.a, r.b));
  for (const auto* m : {&pr.a, &pr.b}) {
    // The generators are built to produce valid meshes; this guards the oracle against a mistake in them.
    if (auto v = validity(*m); !v.empty()) {
      c.label("DISCARDED generator: " + v.substr(0, 40));
      throw pbt::Discard{};
    }
  }
  r.meet = surfaces_meet(r.a, r.b);
  c.nontrivial = r.meet;
  auto rel = pr.relation.substr(0, pr.relation.find(','));
  c.label(rel + (r.meet ? " (surfaces meet)" : " (apart)"));
  return r;
}

// Unique data on every face.
inline void set_data(gen::M& m, int base) {
  m.d.clear();
  for (std::size_t i = 0; i < m.f.size(); ++i) {
    m.d.push_back(base + int(i));
  }
}
