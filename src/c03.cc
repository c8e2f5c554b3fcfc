// C03: the empty set and the universe behave as sets, as operands and as results.
#include "boolean_common.h"

static void check_special(const Region& r) {
  if (r.is_empty() && r.is_full()) {
    pbt::fail("kind", "a region is both empty and full");
  }
  if (r.is_empty_or_full() != (r.is_empty() || r.is_full())) {
    pbt::fail("kind", "is_empty_or_full() disagrees with is_empty() and is_full()");
  }
  if (r.is_empty_or_full() && (r.boundary().num_faces() != 0)) {
    pbt::fail("kind", "an empty or full region has boundary faces");
  }
}

static void check_location(pbt::Source& s, const Region& r) {
  for (int k = 0; k < 4; ++k) {
    P3 p{double(s.around(8)) / 2, double(s.around(8)) / 2, double(s.around(8)) / 2};
    auto side = r.bounded_side(p);
    if (r.is_empty() && side != CGAL::ON_UNBOUNDED_SIDE) {
      pbt::fail("point-location", "the empty region contains " + gen::fmt(p));
    }
    if (r.is_full() && side != CGAL::ON_BOUNDED_SIDE) {
      pbt::fail("point-location", "the full region does not contain " + gen::fmt(p));
    }
  }
}

static int expected_kind(pbt::Source& s, const Operand& a, const Operand& b, Op op, bool* known) {
  // Exact when the operands are constants; otherwise the face-by-face check of check_result decides.
  (void)s;
  *known = a.kind != 2 && b.kind != 2;
  return apply(op, a.kind == 1, b.kind == 1) ? 1 : 0;
}

PBT_SUB(special_operands, 1000, 16000,
        "all 16 operators with the empty set or the universe as one or both operands, the other being any valid closed mesh, its "
        "complement or a previous result; non-trivial: one operand is a mesh") {
  auto& s = c.src;
  auto make = [&](bool special) {
    if (special) {
      return Operand::constant(s.flip());
    }
    gen::M m = gen::solid(s, false);
    if (s.flip()) {
      m = gen::inverted(m);
    }
    auto t = gen::gen_affine(s);
    if (t.name != "identity") {
      m = gen::plain(gen::mapped(m, t));
    }
    if (s.chance(1, 3)) {
      m = gen::relabelled(s, m);
    }
    if (auto v = validity(m); !v.empty()) {
      throw pbt::Discard{};
    }
    return Operand{m};
  };
  auto which = s.weighted({4, 4, 1});
  Operand a = make(which != 1), b = make(which != 0);
  c.describe(describe_pair(a, b));
  c.label(which == 2 ? "both special" : which == 0 ? "first special" : "second special");
  c.nontrivial = a.kind == 2 || b.kind == 2;
  auto ra = a.region(), rb = b.region();
  check_special(ra);
  check_special(rb);
  Builder bld{ra, rb};
  if (bld.warnings() != Warnings::NONE) {
    pbt::fail("warning", "warnings with a special operand");
  }
  std::uint64_t n = 0;
  for (int i = 0; i < 16; ++i) {
    auto op = op_of(i);
    auto r = bld(op, !s.flip());
    check_special(r);
    check_location(s, r);
    bool known = false;
    int k = expected_kind(s, a, b, op, &known);
    if (known && operand_of(r).kind != k) {
      pbt::fail("kind", std::string{"op "} + name(op) + " of two special regions has the wrong kind");
    }
    Check_options o;
    o.surface_samples = 8;
    o.space_samples = 2;
    o.point_location = i % 5 == 1;
    n += check_result(s, a, b, op, r, o);
    if (c.nontrivial && r.is_empty_or_full()) {
      c.label("special result of a mesh and a special region");
    }
  }
  c.evals(n);
}

PBT_SUB(cancelling, 1000, 20000,
        "a valid closed mesh A with B a copy, re-triangulation, relabelling or complement of A, or sharing some of its components, "
        "all 16 operators, and operators between their results: regularized results that are empty or everything must be exactly "
        "the empty or full region; non-trivial: some operator other than V and O has such a result") {
  auto& s = c.src;
  gen::M m = gen::solid(s, false);
  if (s.chance(1, 4)) {
    auto x = gen::translated(gen::solid(s, false), 16, 0, 0);
    gen::append(m, x);
  }
  gen::M m2 = m;
  if (s.flip()) {
    m2 = gen::refined(s, m2, int(s.range(1, 4)));
  }
  if (s.chance(1, 3)) {
    m = gen::refined(s, m, int(s.range(1, 3)));
  }
  auto rel = s.weighted({3, 3, 1, 1});
  if (rel == 1) {
    m2 = gen::inverted(m2);
  } else if (rel == 2) {
    gen::append(m2, gen::translated(gen::base_octa(), -32, 0, 0));
  } else if (rel == 3) {
    auto x = gen::inverted(m2);
    gen::append(x, gen::inverted(gen::translated(gen::base_octa(), -32, 0, 0)));
    m2 = x;
  }
  if (s.flip()) {
    m = gen::inverted(m);
    m2 = gen::inverted(m2);
  }
  auto t = gen::gen_affine(s);
  if (t.name != "identity") {
    m = gen::plain(gen::mapped(m, t));
    m2 = gen::plain(gen::mapped(m2, t));
  }
  if (s.flip()) {
    m2 = gen::relabelled(s, m2);
  }
  if (!validity(m).empty() || !validity(m2).empty()) {
    c.label("DISCARDED generator");
    throw pbt::Discard{};
  }
  Operand a{m}, b{m2};
  if (s.chance(1, 4)) {
    std::swap(a, b);
  }
  c.describe(describe_pair(a, b));
  Builder bld{a.region(), b.region()};
  std::uint64_t n = 0;
  std::vector<Region> results;
  for (int i = 0; i < 16; ++i) {
    auto op = op_of(i);
    auto r = bld(op, !s.chance(1, 4));
    check_special(r);
    check_location(s, r);
    Check_options o;
    o.surface_samples = 12;
    o.space_samples = 3;
    n += check_result(s, a, b, op, r, o);
    if (r.is_empty_or_full() && op != Op::V && op != Op::O) {
      c.nontrivial = true;
      c.label(r.is_empty() ? "empty result" : "full result");
    }
    results.push_back(std::move(r));
  }
  // Results, special ones included, as operands again.
  for (int k = 0; k < 3; ++k) {
    const auto &x = results[s.below(16)], &y = results[s.below(16)];
    auto op = op_of(s.below(16));
    auto ox = operand_of(x), oy = operand_of(y);
    Builder b2{x, y};
    auto r = b2(op);
    check_special(r);
    check_location(s, r);
    Check_options o;
    o.surface_samples = 8;
    o.space_samples = 2;
    n += check_result(s, ox, oy, op, r, o);
  }
  c.evals(n);
}

int main(int argc, char** argv) {
  pbt::Engine e;
  return e.main(argc, argv);
}
