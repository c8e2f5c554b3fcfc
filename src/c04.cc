// C04: results can be chained: compound set expressions obey the laws of set algebra.
#include "boolean_common.h"

namespace {

struct Expr {
  int leaf = -1;
  Op op = Op::V;
  std::shared_ptr<Expr> l, r;
};
using E = std::shared_ptr<Expr>;

E leaf(int i) {
  auto e = std::make_shared<Expr>();
  e->leaf = i;
  return e;
}
E node(Op op, E l, E r) {
  auto e = std::make_shared<Expr>();
  e->op = op;
  e->l = std::move(l);
  e->r = std::move(r);
  return e;
}
std::string text(const E& e) {
  if (e->leaf >= 0) {
    return std::string(1, char('p' + e->leaf));
  }
  return "(" + text(e->l) + " " + name(e->op) + " " + text(e->r) + ")";
}
bool eval(const E& e, const std::vector<bool>& v) {
  return e->leaf >= 0 ? bool(v[e->leaf]) : apply(e->op, eval(e->l, v), eval(e->r, v));
}
Region compute(const E& e, const std::vector<Region>& base) {
  if (e->leaf >= 0) {
    return base[e->leaf];
  }
  auto l = compute(e->l, base);
  auto r = compute(e->r, base);
  Builder b{l, r};
  if (b.warnings() != Warnings::NONE) {
    pbt::fail("warning", "warnings reported for " + text(e));
  }
  return b(e->op);
}

E random_expr(pbt::Source& s, int leaves, int depth) {
  if (depth == 0 || (depth < 3 && s.chance(1, 4))) {
    return leaf(int(s.below(leaves)));
  }
  // The informative operators more often.
  auto op = s.flip() ? s.one_of({Op::K, Op::A, Op::L, Op::J}) : op_of(s.below(16));
  auto l = random_expr(s, leaves, depth - 1);
  auto r = random_expr(s, leaves, depth - 1);
  return node(op, l, r);
}

std::vector<Operand> make_bases(pbt::Case& c, int n) {
  auto& s = c.src;
  gen::Pair_options po;
  po.affine = false;
  po.relabel = false;
  auto pr = gen::gen_pair(s, po);
  std::vector<gen::M> ms{pr.a, pr.b};
  while (int(ms.size()) < n) {
    auto m = gen::solid(s, false);
    double x = gen::small_offset(s), y = gen::small_offset(s);
    ms.push_back(gen::translated(m, x, y, 0));
  }
  ms.resize(n);
  auto t = gen::gen_affine(s);
  std::vector<Operand> r;
  for (auto& m : ms) {
    if (t.name != "identity") {
      m = gen::plain(gen::mapped(m, t));
    }
    if (!validity(m).empty()) {
      c.label("DISCARDED generator");
      throw pbt::Discard{};
    }
    r.emplace_back(m);
    c.describe(std::string(1, char('p' + r.size() - 1)) + ": " + gen::show(m));
  }
  if (s.chance(1, 10)) {
    r[s.below(r.size())] = Operand::constant(s.flip());
    c.describe("(one operand replaced by a special region)\n");
  }
  return r;
}

// Decides whether r is the regularised value of e over the bases.
std::uint64_t check_expr(pbt::Source& s, const E& e, const std::vector<Operand>& bases, const Region& r) {
  auto bad = [&](const std::string& k, const std::string& m) { pbt::fail(k, text(e) + ": " + m); };
  Operand res = operand_of(r);
  std::uint64_t n = 0;
  if (res.kind == 2) {
    if (res.m.f.empty()) {
      bad("kind", "a region with a boundary has no boundary faces");
    }
    if (auto v = validity(res.m, true, false); !v.empty()) {
      bad("malformed", v);
    }
  }
  std::vector<bool> pos(bases.size()), neg(bases.size());
  auto sides = [&](const P3& c, const Vec& nrm, bool* on) {
    *on = false;
    for (std::size_t i = 0; i < bases.size(); ++i) {
      auto sd = sides_at(bases[i], c, nrm);
      if (sd.bad) {
        return false;
      }
      pos[i] = sd.pos;
      neg[i] = sd.neg;
      *on |= sd.on;
    }
    return true;
  };
  for (std::size_t i = 0; i < res.g.size(); ++i) {
    const auto &p = res.g.v(i, 0), &q = res.g.v(i, 1), &t = res.g.v(i, 2);
    auto nrm = CGAL::cross_product(q - p, t - p);
    P3 c = bary(p, q, t, int(s.range(1, 9)), int(s.range(1, 9)), int(s.range(1, 9)));
    bool on{};
    if (!sides(c, nrm, &on)) {
      continue;
    }
    ++n;
    if (!on) {
      bad("off-surface", "the point " + gen::fmt(c) + " of a result face is on no operand's boundary");
    }
    if (eval(e, pos) || !eval(e, neg)) {
      bad("wrong-face", "the result face at " + gen::fmt(c) + " does not have the expected region behind it only");
    }
  }
  for (int k = 0; k < 30; ++k) {
    const auto& x = bases[k % bases.size()];
    if (x.kind != 2) {
      continue;
    }
    auto i = s.below(x.g.size());
    const auto &p = x.g.v(i, 0), &q = x.g.v(i, 1), &t = x.g.v(i, 2);
    P3 c = bary(p, q, t, int(s.range(1, 11)), int(s.range(1, 11)), int(s.range(1, 11)));
    bool on{};
    if (!sides(c, CGAL::cross_product(q - p, t - p), &on)) {
      continue;
    }
    ++n;
    bool ep = eval(e, pos), en = eval(e, neg);
    auto cov = res.kind == 2 && !res.g.containing(c).empty();
    if ((ep != en) != cov) {
      bad(cov ? "extra-face" : "missing-face", "the point " + gen::fmt(c) + (cov ? " is" : " is not") + " on the result's boundary");
    }
    if (!cov) {
      bool in = res.kind == 2 ? res.g.inside(c).value() : res.kind == 1;
      if (in != ep) {
        bad("membership", "the point " + gen::fmt(c) + " should be " + yn(ep) + " but is " + yn(in));
      }
    }
  }
  return n;
}

}  // namespace

PBT_SUB(expressions, 2600, 40000,
        "random expression trees (depth up to 3, thorough 4) of the 16 operators over 2 to 4 valid closed solids, copies of each "
        "other and special regions, evaluated by feeding results back as operands and decided against exact membership in the "
        "original solids; non-trivial: at least three operations with some intermediate result used further") {
  auto& s = c.src;
  int n = int(s.range(2, 4));
  auto bases = make_bases(c, n);
  auto e = random_expr(s, n, c.tier == "thorough" && s.chance(1, 4) ? 4 : 3);
  c.describe("expression " + text(e) + "\n");
  std::vector<Region> regs;
  for (const auto& b : bases) {
    regs.push_back(b.region());
  }
  auto txt = text(e);
  auto ops = std::count(txt.begin(), txt.end(), '(');
  c.nontrivial = ops >= 3;
  c.label(std::to_string(ops) + " operations");
  auto r = compute(e, regs);
  c.evals(check_expr(s, e, bases, r));
}

PBT_SUB(laws, 1400, 20000,
        "the two sides of a law of set algebra (commutativity, associativity, distributivity, absorption, De Morgan, double "
        "complement, idempotence, difference and symmetric-difference identities) computed through different operators on two or "
        "three valid closed solids, compared with each other face by face and with exact membership; non-trivial: the first two "
        "solids' surfaces meet") {
  auto& s = c.src;
  auto bases = make_bases(c, 3);
  int i = int(s.below(3)), j = (i + 1 + int(s.below(2))) % 3, k = 3 - i - j;
  auto a = [&] { return leaf(i); };
  auto b = [&] { return leaf(j); };
  auto d = [&] { return leaf(k); };
  auto U = [](E x, E y) { return node(Op::A, x, y); };
  auto I = [](E x, E y) { return node(Op::K, x, y); };
  auto D = [](E x, E y) { return node(Op::L, x, y); };
  auto X = [](E x, E y) { return node(Op::J, x, y); };
  auto N = [](E x) { return node(Op::F, x, x); };
  std::vector<std::pair<E, E>> laws{
      {U(a(), b()), U(b(), a())},
      {I(a(), b()), I(b(), a())},
      {X(a(), b()), X(b(), a())},
      {U(a(), U(b(), d())), U(U(a(), b()), d())},
      {I(a(), I(b(), d())), I(I(a(), b()), d())},
      {X(a(), X(b(), d())), X(X(a(), b()), d())},
      {I(a(), U(b(), d())), U(I(a(), b()), I(a(), d()))},
      {U(a(), I(b(), d())), I(U(a(), b()), U(a(), d()))},
      {U(a(), I(a(), b())), a()},
      {I(a(), U(a(), b())), a()},
      {N(U(a(), b())), I(N(a()), N(b()))},
      {N(I(a(), b())), U(N(a()), N(b()))},
      {N(N(a())), a()},
      {U(a(), a()), a()},
      {I(a(), a()), a()},
      {D(a(), b()), I(a(), N(b()))},
      {X(a(), b()), D(U(a(), b()), I(a(), b()))},
      {X(a(), b()), U(D(a(), b()), D(b(), a()))},
      {D(a(), U(b(), d())), I(D(a(), b()), D(a(), d()))},
      {X(X(a(), b()), b()), a()},
      {U(D(a(), b()), I(a(), b())), a()},
      {node(Op::H, a(), b()), b()},
      {node(Op::I, a(), b()), a()},
      {node(Op::X, a(), b()), N(U(a(), b()))},
      {node(Op::D, a(), b()), N(I(a(), b()))},
      {node(Op::E, a(), b()), N(X(a(), b()))},
      {node(Op::B, a(), b()), U(a(), N(b()))},
      {node(Op::C, a(), b()), U(N(a()), b())},
      {node(Op::M, a(), b()), D(b(), a())},
      {node(Op::G, a(), b()), N(b())},
  };
  const auto& law = laws[s.below(laws.size())];
  c.describe("law " + text(law.first) + " = " + text(law.second) + "\n");
  std::vector<Region> regs;
  for (const auto& x : bases) {
    regs.push_back(x.region());
  }
  c.nontrivial = surfaces_meet(bases[i], bases[j]);
  auto r1 = compute(law.first, regs), r2 = compute(law.second, regs);
  auto o1 = operand_of(r1), o2 = operand_of(r2);
  auto n = check_expr(s, law.first, bases, r1) + check_expr(s, law.second, bases, r2);
  if (auto v = same_set(s, o1, o2); !v.empty()) {
    pbt::fail("law", text(law.first) + " = " + text(law.second) + ": " + v);
  }
  c.evals(n + o1.g.size() + o2.g.size());
}

int main(int argc, char** argv) {
  pbt::Engine e;
  return e.main(argc, argv);
}
